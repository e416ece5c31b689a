C = 'source/fern/core/'
PROPS = [
    dict(id='C01', title='The thread pool runs every task once and shuts down without loose ends',
         statement='Every submitted task is queued once, a worker is notified, and the returned future belongs to that task. All access to the queue is under its mutex; taking gives the oldest task, or reports that there is none. A worker that takes a task runs exactly that task, exactly once, without holding the lock of the pool; it goes on until the pool is told to stop, looks at the stop flag every turn, and never waits where a missed notification would keep it asleep. The pool starts as many threads as asked for. Destruction sets the stop flag, then notifies all threads, then joins every thread, and only after that destroys what the threads use.',
         over=['schedules', 'histories'], quant='every interleaving of submitting, working and destroying threads, any number of threads and tasks',
         why='A test samples a few interleavings on one machine. A notification lost between the last look in the queue and the wait, an unlocked look at the queue or a member destroyed too early shows up once in many thousands of runs.',
         files=[C + 'thread_pool.h', C + 'thread_pool.cc', C + 'thread_safe_queue.h', C + 'join_threads.h', C + 'join_threads.cc', C + 'detail/function_wrapper.h'],
         state=[('_done', 'stop flag', C + 'thread_pool.h'), ('_work_queue', 'tasks nobody took yet', C + 'thread_pool.h')],
         mech=[('submit', C + 'thread_pool.h'), ('worker loop', C + 'thread_pool.cc'), ('push, try_pop, empty', C + 'thread_safe_queue.h'), ('joining', C + 'join_threads.cc'), ('type erased task', C + 'detail/function_wrapper.h')],
         observe=['lock, unlock, wait, notify, join, queue and task operations on each path'],
         technique='typestate rules over every path of the worker loop; symbolic operation traces from LLVM IR compared with reference traces; declaration order from the syntax tree', note='Decides the listed rules for all paths, which hold per thread and so for every interleaving; the standard library is assumed. Progress beyond the rules (fairness) is not decided. Tasks still queued when the pool is destroyed are dropped by design.'),
    dict(id='C06', title='No namespace-scope object depends on one that may not be initialised yet',
         statement='Every object with static storage that needs dynamic initialisation (the value and data type constants, the conversion tables, the operation tables, the client libraries) is initialised only from objects that are certainly initialised before it: constants, objects defined earlier in the same translation unit, or objects local to a function. What a program sees in those constants and tables therefore does not depend on the order in which the linker arranges translation units.',
         over=['configurations', 'inputs'], quant='every order in which a linker or loader may initialise translation units',
         why='A test binary samples one link order. A table built from constants of another translation unit is right in one link order and full of zeros in another, and nothing in the program text of either file looks wrong by itself.',
         files=[C + 'type_traits.cc', C + 'value_types.cc', C + 'data_types.cc', 'source/fern/language'],
         mech=[('flag constants', C + 'type_traits.cc'), ('name tables', C + 'value_types.cc'), ('name tables', C + 'data_types.cc'), ('operation and argument tables', 'source/fern/language')],
         observe=['values of ValueTypes/DataTypes constants and of the tables built from them'],
         technique='whole-program call graph and global-mention analysis over LLVM IR of every translation unit', note='Decides every dynamically initialised object in the translation units the build compiles. Virtual and data-driven indirect calls made by an initialiser are not followed.'),
    dict(id='C02', title='Flag collections follow set algebra and agree with their names',
         statement='For every pair of flag collections: and, or and xor (and their assignments) are the set operations, equality and inequality compare the sets, count, any, none, fixed and test describe the set, and is_subset_of holds for a non-empty collection whose flags are all in the other. An expression type is defined, fixed, satisfied and equal as its data and value types are. Each ValueTypes and DataTypes constant, and the value types of each C++ type, has exactly the flags its name says; every flag has one name of its own, and reading that name gives that flag back.',
         over=['inputs'], quant='every pair of flag collections, every flag constant, every name',
         why='There are 8192 value type collections and 2^26 pairs; tests look at a handful of flags and at the group constants hardly at all. The type checker of expressions reads everything through these few functions.',
         files=[C + 'flag_collection.h', C + 'value_types.cc', C + 'value_types.h', C + 'data_types.cc', C + 'type_traits.cc', C + 'expression_type.cc'],
         mech=[('set operations', C + 'flag_collection.h'), ('constants', C + 'type_traits.cc'), ('tables of names', C + 'value_types.cc'), ('tables of names', C + 'data_types.cc'), ('is_satisfied_by', C + 'expression_type.cc')],
         observe=['results of the members', 'values of the constants', 'rows of the tables'],
         technique='symbolic normal forms from LLVM IR against bit arithmetic; constant propagation of initialisers; table extraction from the syntax tree', note='Decides the set algebra for all collections and the contents of constants and tables. That from_string and to_string look up those tables is not decided.'),
    dict(id='C03', title='Type identities agree across C++, fern, GDAL and NetCDF',
         statement='Every fern value type stands for one C++ type and back; the category, limits, no-data value, infinity and NaN of each number type are those of that type; is_no_data, set_no_data, is_equal and is_not_equal do what they say for every value. The GDAL type of each C++ type is the one with the same representation, the reverse mapping agrees, types GDAL does not have are not mapped, each GDAL type has its name, and each NetCDF type is taken for the value type of the same representation.',
         over=['inputs', 'configurations'], quant='every value type, every C++ type, every value',
         why='A wrong row silently reads data with another width or sign. Tests read one byte raster and one double scalar.',
         files=[C + 'type_traits.h', C + 'value_type_traits.h', C + 'math.h', 'source/fern/io/gdal/value_type_traits.h', 'source/fern/io/gdal/gdal_value_type_traits.h', 'source/fern/io/gdal/gdal_value_type_traits.cc', 'source/fern/io/netcdf/core/variable.cc'],
         mech=[('TypeTraits', C + 'type_traits.h'), ('ValueTypeTraits', C + 'value_type_traits.h'), ('value_type_map', 'source/fern/io/netcdf/core/variable.cc'), ('GDALValueTypeTraits', 'source/fern/io/gdal/gdal_value_type_traits.h')],
         observe=['types and constants', 'rows of the table'],
         technique='compile-time witnesses; symbolic normal forms; table extraction from the syntax tree', note='Decides every listed type. The installed GDAL and NetCDF headers say what their types are.'),
    dict(id='C04', title='Every error has its message, with the details in their places',
         statement='Every MessageId has exactly one text, which says what its name says, and takes its arguments in order; the lookup gives that text, and the text of UNKNOWN_ERROR for an id without one. Each formatted message in the library is given as many details as its text takes, and text with details is never used unformatted. IOError reports source and message (the description of the given error number), ParseError source:line:column, the statement if there is one, and message, ValidateError source:line:column and message, each in the place the text has for it; other exceptions report the text of their id.',
         over=['inputs'], quant='every MessageId, every place in the library that makes a message, every source name, position, statement and detail',
         why='Error texts are formatted at run time: a text with a place too many or too few throws another exception while the first is reported, on an error path no test takes; swapped details compile as well.',
         files=[C + 'messages.h', C + 'messages.cc', C + 'message_id.h', C + 'exception.h', C + 'exception.cc', C + 'io_error.cc', C + 'script_error.cc', C + 'parse_error.cc', C + 'validate_error.cc', 'source/fern/io/gdal/dataset.cc', 'source/fern/io/netcdf/coards/detail/read.h'],
         mech=[('table of texts', C + 'messages.cc'), ('format_message', C + 'messages.h'), ('message()', C + 'parse_error.cc'), ('throwing', 'source/fern/io/gdal/dataset.cc')],
         observe=['text of messages; exceptions of the formatter'],
         technique='table of texts and all uses of Messages read from the syntax tree and matched on the number and order of places; symbolic outcomes of the exception classes compared with reference definitions', note='boost::format is opaque (it fills the n-th argument in at %n%). Only the translation units the build compiles and the headers of the library are searched for uses. Whether the words of a text suit is judged by the words of its id.'),
]
