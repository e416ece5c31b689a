C = 'source/fern/core/'
G = 'source/fern/io/gdal/'
N = 'source/fern/io/netcdf/'
PROPS = [
    dict(id='I01', title='Datasets, client libraries and scope guards are released exactly once',
         statement='A dataset taken by a GDAL or NetCDF dataset handle is closed exactly once, by the last handle responsible for it, however handles are moved or assigned; handles cannot be copied. The function of a ScopeExit runs exactly once, when the instance that is responsible for it goes out of scope, and not at all after release; moving passes the responsibility on. The GDAL drivers are registered when the first client object is made and all of them are deregistered and destroyed when the last one goes, for any number of clients.',
         over=['histories'], quant='every history of opening, moving, assigning, releasing and leaving scope; every number of clients and drivers',
         why='Tests open one dataset and leave. A second close, a missing close or a driver deregistered too early takes a particular sequence of moves or nested lifetimes, and is often silent.',
         files=[C + 'scope_exit.h', G + 'dataset_handle.h', G + 'dataset_handle.cc', N + 'core/dataset_handle.h', N + 'core/dataset_handle.cc', G + 'gdal_client.h', G + 'gdal_client.cc'],
         mech=[('handle members', G + 'dataset_handle.cc'), ('handle members', N + 'core/dataset_handle.cc'), ('guard members', C + 'scope_exit.h'), ('client count', G + 'gdal_client.cc')],
         observe=['calls of GDALClose, nc_close, the guarded function, driver registration'],
         technique='symbolic event traces from LLVM IR of short ownership histories compared with reference traces on every path; compile-time witnesses against copying', note='Decides the listed histories, which exercise every special member; GDAL and NetCDF are opaque. Client objects used from several threads at once are not covered.'),
    dict(id='I02', title='Reading a GDAL raster gives its cells and its no-data, or throws',
         statement='Opening a GDAL dataset throws IOError, naming the dataset and the reason (it does not exist, it cannot be read, it cannot be written), or gives a handle of the dataset in the mode asked for. The raster band asked for is the one returned; one that is not there is an IOError. Reading a raster reads the whole first band, once, in the type of the destination; a band of another type, and a failure of GDAL, is an IOError. If the band has a no-data value, exactly the cells that hold it (all NaN cells if it is NaN; compared in the type of the cells, and as double for integers) are marked as no-data, each at its own position; if not, none is.',
         over=['inputs'], quant='every pathname, mode, number of bands, raster size, band type, no-data value and cell value; every outcome of each GDAL call; seven destination types',
         why='Tests read small files that exist. A failing call, an odd no-data value, a raster that is not square or a second band takes particular files, and ignoring a failure returns plausible cells.',
         files=[G + 'dataset.cc', G + 'read.h', G + 'detail/read.h', G + 'value_type_traits.h', 'source/fern/io/core/file.cc'],
         mech=[('open_dataset, raster_band, gdal_value_type', G + 'dataset.cc'), ('read', G + 'detail/read.h'), ('file_exists', 'source/fern/io/core/file.cc')],
         observe=['calls of GDALOpen, RasterIO and GDALClose; IOError thrown; cells marked; values returned'],
         technique='symbolic outcomes from LLVM IR (calls, exceptions with their message ids, marks per generic iteration) compared with reference definitions over all outcomes of the library calls', note='GDAL, std::filesystem and std::string are opaque; the destination must have the size of the band (the documented assumption). What happens on the way out of an exception is left to C++.'),
    dict(id='I03', title='Reading NetCDF and COARDS data gives the variable asked for, or throws',
         statement='Opening a NetCDF dataset throws IOError if the library cannot open it and gives its id otherwise. contains_variable and has_attribute hold exactly if the library finds the variable or global attribute; variable_id, value_type_id and attribute give what the library reports, a scalar is a variable without dimensions. The conventions are the parts of the global attribute between commas, stripped, if it has commas, and between white space if not; none without the attribute. Reading a COARDS scalar reads the variable of that name, after these checks in this order, each failure an IOError with its own message: the file exists, opens, conforms to COARDS, contains the variable, the variable is a scalar, its type is that of the destination.',
         over=['inputs'], quant='every pathname, variable name, attribute value and outcome of each call of the NetCDF library',
         why='Tests read one prepared file per failure. A check that is skipped, reversed or made of another variable shows only for files with that combination of variables, and reading then returns a number from elsewhere.',
         files=[N + 'core/dataset.cc', N + 'core/variable.cc', N + 'core/attribute.cc', N + 'core/detail/variable.h', N + 'coards/dataset.cc', N + 'coards/read.h', N + 'coards/detail/read.h'],
         mech=[('open_dataset', N + 'core/dataset.cc'), ('queries', N + 'core/variable.cc'), ('attributes and conventions', N + 'core/attribute.cc'), ('conforms_to_coards', N + 'coards/dataset.cc'), ('read_coards', N + 'coards/detail/read.h')],
         observe=['calls of the NetCDF library; IOError thrown; values returned'],
         technique='symbolic outcomes from LLVM IR (library calls, exceptions with their message ids, results) compared with reference definitions over all outcomes of the library calls', note='The NetCDF library and std::string are opaque; where the sources assert on a status (a documented assumption) nothing is claimed. The table of types is decided under C03.'),
]
