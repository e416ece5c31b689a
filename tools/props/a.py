AC = 'source/fern/algorithm/core/'
IRT = 'guarded-event dataflow over normalised LLVM IR of probe instantiations, compared with a decision table'
NOTE = 'Decides the clause for every value, size and partition block of each listed instantiation; trusts clang/LLVM normalisation and that the opaque probe types stand for any user type. '
PROPS = [
 dict(id='A01', title='No-data propagates through local operations',
  statement='A cell of the result of a local operation is marked as no-data whenever any input is no-data at that cell, and no computation is then done for it. A cell whose inputs are all valid, and which the domain and range policies accept, is never marked.',
  over=['inputs', 'configurations'], quant='every local operation engine, combination of argument ranks, execution policy, grid size and no-data pattern',
  why='Tests sample a few small grids with one or two no-data cells and mostly one engine per rank; the guarantee is for every cell, pattern and rank combination.',
  files=[AC + 'unary_local_operation.h', AC + 'binary_local_operation.h', AC + 'nullary_local_operation.h', AC + 'n_ary_local_operation.h', AC + 'unary_disaggregate_operation.h'],
  state=[('input no-data policies', 'which input cells are missing', AC + 'binary_local_operation.h'), ('output no-data policy', 'which result cells are marked', AC + 'binary_local_operation.h')],
  mech=[('no-data test before the domain test in every operation_*d kernel', AC + 'binary_local_operation.h'), ('no-data test of a scalar argument hoisted out of the loop', AC + 'binary_local_operation.h')],
  observe=['calls of the output no-data policy and stores to the result per cell'], technique=IRT, note=NOTE),
 dict(id='A02', title='Domain and range policies decide marking in local operations',
  statement='The domain policy is asked with exactly the operand values of the cell, and the range policy with those operands and the computed result. A cell rejected by the domain policy is marked and not computed, a cell rejected by the range policy ends up marked, and no other valid cell is marked.',
  over=['inputs', 'configurations'], quant='every local operation engine with domain/range policies, rank combination, execution policy and operand values',
  why='Tests use concrete policies on sampled values; a policy asked with swapped operands, or whose verdict is dropped in one rank combination, passes them.',
  files=[AC + 'unary_local_operation.h', AC + 'binary_local_operation.h', AC + 'n_ary_local_operation.h', AC + 'unary_disaggregate_operation.h'],
  mech=[('OutOfDomainPolicy::within_domain and OutOfRangePolicy::within_range calls in every kernel', AC + 'binary_local_operation.h')],
  observe=['calls of the output no-data policy per cell'], technique=IRT, note=NOTE),
 dict(id='A03', title='Local operations write every cell once, from its own operands',
  statement='A local operation stores a value in every cell of the result exactly once, computed from the operand values at that same cell, and uses a scalar operand unchanged for every cell. Operand values reach the computation without being converted to another value type.',
  over=['inputs', 'configurations'], quant='every local operation engine, rank combination, grid size and operand value types',
  why='Tests compare a few small grids of one value type; an off-by-one at an extent, a transposed index or a silent conversion of one operand needs shapes and types they do not use.',
  files=[AC + 'unary_local_operation.h', AC + 'binary_local_operation.h', AC + 'nullary_local_operation.h', AC + 'n_ary_local_operation.h', AC + 'unary_disaggregate_operation.h', AC + 'index_ranges.cc'],
  mech=[('loops over IndexRanges and index(result, i, j)', AC + 'unary_local_operation.h')],
  observe=['stores to the result'], technique='affine loop coverage and value flow over normalised LLVM IR (scalar evolution) of probe instantiations', note=NOTE),
 dict(id='A04', title='Parallel execution gives the sequential result and waits for all work',
  statement='For every local and selection operation, executing in parallel treats each cell exactly as executing sequentially does. One task is handed to the pool per block of a partition of the whole result, and the operation does not return before every task has finished.',
  over=['schedules', 'inputs', 'configurations'], quant='every operation and rank combination, every number of worker threads, grid size and task interleaving',
  why='Tests run the parallel policy on small inputs and one thread count; a block that is never submitted, a task nobody waits for or a wrong kernel in one overload depends on schedule and size.',
  files=[AC + 'unary_local_operation.h', AC + 'binary_local_operation.h', AC + 'nullary_local_operation.h', AC + 'n_ary_local_operation.h', AC + 'detail/cover.h', AC + 'detail/if.h', AC + 'detail/clamp.h', AC + 'detail/merge_no_data.h'],
  mech=[('one submit per IndexRanges block, futures collected and waited for', AC + 'unary_local_operation.h')],
  observe=['stores and markings per cell', 'order of submit and future::get'], technique=IRT + '; task protocol as typestate over futures', note=NOTE + 'The thread pool is replaced by a stand-in that inlines the task at its submission.'),
 dict(id='A05', title='Index space partitions are exact',
  statement='Splitting a one- or two-dimensional index space into blocks gives ranges that together cover every index exactly once: the first block starts at zero, each block begins where the previous one ends, the last one ends at the extent, no block runs backwards or leaves the extent, for every number of requested blocks and every extent.',
  over=['inputs', 'configurations'], quant='every number of requested blocks (at least one) and every extent, whether or not it divides evenly or is smaller than the number of blocks',
  why='Tests check a few divisible and non-divisible sizes; a lost or doubled remainder block needs particular sizes and thread counts.',
  files=[AC + 'index_ranges.cc', AC + 'index_ranges.h', AC + 'index_range.h'],
  mech=[('block size division and the remainder block', AC + 'index_ranges.cc')],
  observe=['begin and end of every range returned'], technique='polynomial identity checking of block bounds over normalised LLVM IR (scalar evolution of the producing loops)', note='Decides all sizes at once through polynomial identities in the block count, extent and quotient; assumes extents whose products do not wrap around.'),
 dict(id='A06', title='A runtime-selected execution policy behaves as the static one',
  statement='Passing the runtime-selectable execution policy gives, for the alternative it holds, exactly the behaviour of passing that policy statically: the same cells written and marked, in the pool if and only if the parallel policy is held.',
  over=['configurations', 'inputs'], quant='every local and selection operation and rank combination that accepts the runtime policy, both alternatives',
  why='Tests exercise the runtime policy in a handful of operations; each rank combination has its own hand-written dispatch.',
  files=[AC + 'unary_local_operation.h', AC + 'binary_local_operation.h', AC + 'nullary_local_operation.h', AC + 'detail/cover.h', AC + 'detail/if.h', AC + 'detail/clamp.h', 'source/fern/algorithm/policy/execution_policy.h'],
  mech=[('switch on which() in each ExecutionPolicy specialisation', AC + 'unary_local_operation.h')],
  observe=['stores and markings per cell'], technique=IRT + ' of the static policies', note=NOTE),
 dict(id='A07', title='Selection operations follow their decision tables',
  statement='Covering, conditional selection, uniting, intersecting and merging of no-data, and clamping choose, for every combination of missing inputs, condition outcome and order of values and bounds, exactly the documented source value or mark the cell as no-data.',
  over=['inputs', 'configurations'], quant='every combination of no-data inputs, condition outcome and value/bound order, every rank combination and execution policy',
  why='Each operation has up to twelve rank overloads times three policies with hand-written branches; tests cover a few combinations of a few overloads.',
  files=[AC + 'cover.h', AC + 'detail/cover.h', AC + 'if.h', AC + 'detail/if.h', AC + 'clamp.h', AC + 'detail/clamp.h', AC + 'unite_no_data.h', AC + 'intersect_no_data.h', AC + 'merge_no_data.h'],
  mech=[('per-overload kernels', AC + 'detail/if.h')],
  observe=['stores and markings per cell'], technique=IRT + '; values compared over all weak orderings', note=NOTE),
 dict(id='A08', title='Compressing and decompressing keep the valid values and their order',
  statement='Compressing a collection puts the values of its valid cells, in order, at the front of the result and reports how many there are. Decompressing puts those values back, in order, in the cells that are not missing and marks the others. Each holds for sequential execution, and parallel execution compresses every block on its own and then joins the blocks in order, whatever the number of blocks and the values missing in them, returning after all work is finished.',
  over=['inputs', 'schedules', 'configurations'], quant='every collection size and pattern of missing values, every number of worker threads, one and two dimensions, the static and the run-time chosen execution policies',
  why='Tests compress a few patterns; joining the blocks depends on how many values are missing in each block and on the number of threads.',
  files=[AC + 'detail/compress.h', AC + 'detail/decompress.h', AC + 'compress.h', AC + 'decompress.h', AC + 'detail/copy.h', AC + 'index_ranges.h'],
  mech=[('compress_1d, compress_2d and copy_regional_results_to_front', AC + 'detail/compress.h')],
  observe=['values stored at the front of the result, the count'], technique='equivalence of the loop nests with a reference definition over normalised LLVM IR: loop-carried positions, conditions per cell and stores compared symbolically', note='The task protocol of the pool is compared as events of the reference; sizes, masks and block bounds stay symbolic. Assumes size(result) equals size(value), as the implementation asserts.'),
 dict(id='A09', title='Offset and copy move every value to its place',
  statement='Offsetting moves the value of every valid cell to the cell the offset further in each dimension, if that lies inside, marks the cells that a missing value moves to, and marks or fills (as asked) exactly the cells nothing moves to, for offsets of any sign and size, also beyond the extent. Copying a range puts its values, in order, at the requested position and marks those that are missing. Parallel execution does the same per block and waits for all work; an empty range copies nothing.',
  over=['inputs', 'schedules', 'configurations'], quant='every extent and offset (negative, zero, positive, beyond the extent, 32 and 64 bits), pattern of missing values, range and position, number of worker threads, static and run-time policy',
  why='Tests use a few offsets on square grids; clamping at extents, mixed signs per dimension and blocks that fall outside depend on combinations they do not sample.',
  files=[AC + 'detail/offset.h', AC + 'offset.h', AC + 'detail/copy.h', AC + 'copy.h'],
  mech=[('range_to_copy and range_to_initialize', AC + 'detail/offset.h'), ('position_per_block', AC + 'detail/copy.h')],
  observe=['stores and markings per cell'], technique='equivalence of the loop nests with a reference definition over normalised LLVM IR; the loop bounds, being compositions of minimum, maximum and absolute value, are compared on every order of extent, offset and block bounds', note='The bounds compared by points are piecewise linear with unit coefficients; the points cover every order of the terms and their sums and differences, and offsets too wide for the next narrower type. Not decided: offsets of a type that cannot hold the extent.'),
 dict(id='A10', title='Named cell operations compute their documented function',
  statement='add, subtract, multiply, divide, pow, the comparisons, ceil, floor, round, trunc, sqrt, the logarithms, tgamma, factorial, absolute, the boolean operations and defined, the trigonometric functions, binary_max, binary_min, cast and sign store in each valid cell the documented function of the operands in the order given: arithmetic in the documented result type, boolean operations on the truth of the operands. They use the input no-data, output no-data, domain and range policies the caller passes, and the overload without policies marks nothing and treats every value as valid.',
  over=['inputs', 'configurations'], quant='every operand value, no-data, domain and range verdict, and every combination of arithmetic value types',
  why='Tests call each operation on a handful of values of one or two value types; swapped operands, an unpromoted intermediate or a dropped policy needs particular types or values.',
  files=['source/fern/algorithm/algebra/elementary/detail/%s.h' % n for n in ('add', 'divide', 'multiply', 'subtract', 'pow')] + ['source/fern/algorithm/algebra/boole/detail/%s.h' % n for n in ('and', 'or', 'nor', 'xor', 'xnor', 'not', 'defined')] + ['source/fern/algorithm/trigonometry/%s.h' % n for n in ('acos', 'asin', 'atan', 'cos', 'sin', 'tan')] + ['source/fern/algorithm/statistic/binary_max.h', 'source/fern/algorithm/statistic/binary_min.h', AC + 'cast.h', AC + 'sign.h'],
  mech=[('the Algorithm functor of each operation and the engine call that carries it', 'source/fern/algorithm/algebra/elementary/detail/multiply.h')],
  observe=['the value stored and the marking per cell'], technique='expression equivalence of each operation with a reference kernel over normalised LLVM IR, case split over value orderings', note='Library functions such as std::sin are symbols: the check decides that they are applied to the operand, not what they return. Operations are compared at rank 0; the engines they run on are decided for every rank by A01 to A06.'),
 dict(id='A11', title='Domain policies accept exactly the documented domain',
  statement='The domain policy of every operation that has one accepts an operand (pair) if and only if it is in the documented domain: non-negative for sqrt and the logarithms, not a negative whole number for tgamma, non-negative and whole for factorial, a non-zero divisor for divide, no negative base with a fractional exponent and no zero base with a negative exponent for pow, -1 to 1 for acos and asin, finite for sin and cos, finite and not an odd multiple of half pi for tan. The policies that discard domain and range errors accept everything.',
  over=['inputs', 'configurations'], quant='every operand value including infinities and NaN, for the supported value types',
  why='Tests try a few values inside and outside each domain; a bound tested with the wrong strictness, or NaN, infinities and large exponents, are not among them.',
  files=['source/fern/algorithm/algebra/elementary/%s.h' % n for n in ('sqrt', 'log', 'log10', 'log2', 'tgamma', 'factorial', 'pow', 'divide')] + ['source/fern/algorithm/trigonometry/%s.h' % n for n in ('acos', 'asin', 'sin', 'cos', 'tan')] + ['source/fern/algorithm/policy/discard_domain_errors.h', 'source/fern/algorithm/policy/discard_range_errors.h'],
  mech=[('OutOfDomainPolicy::within_domain of every operation', 'source/fern/algorithm/algebra/elementary/pow.h')],
  observe=['the verdict returned'], technique='decision-table equivalence of each predicate with its definition over normalised LLVM IR, evaluated in every region its comparisons cut the operands into', note='Regions are sampled at the limits, the compared constants, their neighbours, halves, NaN and infinities; predicates whose verdict depends on finer structure than their comparisons would be undecided and reported as such.'),
 dict(id='A12', title='Range policies reject exactly the results that do not fit',
  statement='The range policies of add, subtract and multiply on integers accept a result if and only if the exact result fits the result type, for every combination of integer types whose operands fit the result type; on floating point add, subtract, multiply, divide and pow, and tgamma and factorial, accept exactly the finite results (sums and differences of a float and an integer are always accepted when finite); absolute accepts everything but the smallest signed value; factorial of an integer accepts what fits; widening casts always fit; DetectOutOfRangeByErrno rejects exactly when errno is ERANGE.',
  over=['inputs', 'configurations'], quant='every pair of operand values at and around the limits of every pair of integer types, and every class of floating point result',
  why='Tests try a few sums and products near one limit for some types; the hand-written overflow predicates differ per signedness combination and fail only at particular limits.',
  files=['source/fern/algorithm/algebra/elementary/detail/%s.h' % n for n in ('add', 'subtract', 'multiply', 'divide', 'factorial')] + ['source/fern/algorithm/algebra/elementary/%s.h' % n for n in ('absolute', 'pow', 'tgamma')] + [AC + 'detail/cast.h', 'source/fern/algorithm/policy/detect_out_of_range_by_errno.h'],
  mech=[('dispatch::within_range per pair of number categories', 'source/fern/algorithm/algebra/elementary/detail/multiply.h')],
  observe=['the verdict returned'], technique='exact evaluation of the verdict expression of normalised LLVM IR over the regions cut by type limits and quotients', note='The verdict is a loop-free expression; it is evaluated exactly on the boundary points of its comparisons (limits, quotients of limits, zero and their neighbours), not on all operand values. Unsigned 64 bit operands beyond the signed result type are not decided: the documented result type cannot hold them.'),
 dict(id='A13', title='Accumulators represent exactly the values added',
  statement='The count, sum, min, max, mean and range accumulators give, after any construction, assignment, additions and merges, the statistic of exactly the values they were given: assignment restarts from the assigned value, addition takes one value into account once, merging takes the values of the other accumulator into account once and leaves that one alone. The range-checked forms change the state in the same way and return the verdict of the range policy on the old state, the operand and the new state.',
  over=['inputs', 'histories'], quant='every value and every history of constructions, assignments, additions and merges, with and without a range policy',
  why='Tests add a few values to one accumulator; merging, reassignment after additions and the range-checked merge matter in parallel aggregation only and depend on history.',
  files=['source/fern/algorithm/accumulator/%s.h' % n for n in ('count', 'sum', 'min', 'max', 'mean', 'range')],
  state=[('accumulated state', 'the statistic of the values so far', 'source/fern/algorithm/accumulator/sum.h')],
  mech=[('operator=, operator(), operator|= and operator| of every accumulator', 'source/fern/algorithm/accumulator/mean.h')],
  observe=['the value operator()() returns'], technique='expression equivalence of member functions with algebraic laws over normalised LLVM IR, case split over value orderings', note='State transition laws decide every history by induction for accumulators whose state is their result; mean and range are decided over symbolic short histories that together exercise every member function.'),
 dict(id='A14', title='Aggregating takes in every valid value, once, and only those',
  statement='An aggregate operation over a value, a 1D or a 2D collection adds every valid value to the accumulator once, in order, and no other value. The result is written if and only if there is a valid value and no addition went out of range; otherwise the result is marked as no-data and not written. Executed in parallel, each block of the partition is aggregated by itself in one task, all tasks are waited for, and the blocks with valid values are merged in order; the result is no-data if any block, or merging, goes out of range, or there are no valid values. The same holds whether the policy is chosen at compile time or at run time. A binary aggregate operation starts from the first valid value and continues with the others, under the same rules.',
  over=['inputs', 'configurations'], quant='every pattern of missing values and of out of range verdicts over collections of each small shape, sequential, in every number of blocks and under a policy chosen at run time',
  why='Tests aggregate a few values with a missing one here and there; which rows are all missing, where the first valid value is and which addition goes out of range decides which of the two loops handles the rest.',
  files=[AC + 'unary_aggregate_operation.h', AC + 'binary_aggregate_operation.h'],
  mech=[('operation_0d, operation_1d and operation_2d and the merging of blocks', AC + 'unary_aggregate_operation.h')],
  observe=['the value written or the marking, and the accumulations it is made of'], technique='equivalence of specialisations with a reference scan over normalised LLVM IR: loops over constant extents followed iteration by iteration, missing values and verdicts as opaque predicates, decision trees compared branch by branch', note='Shapes up to 3 values in 1D (4 in blocks) and 3 x 2 in 2D; the loops treat every further row and column alike, which is an assumption, not something that is decided. The element access, the accumulator and the partition are opaque (A06, A13 and A05 decide those). Merging of the blocks of a binary aggregate operation is not decided: the repository says itself, in a TODO, that it marks the result when a block has no valid values.'),
 dict(id='A15', title='Accumulators that keep their values report the statistic of exactly those',
  statement='The median, variance, standard deviation and mode accumulators report, after any history of constructions, assignments, additions, merges and requests for the result, the statistic of exactly the values they were given: the middle value or the mean of the two middle values; the mean squared deviation from the mean and its square root; a value that occurs most often. A default constructed accumulator holds no values, assignment restarts from the assigned value, merging takes in the values of the other accumulator once and leaves that one alone, and asking for the result changes nothing.',
  over=['inputs', 'histories'], quant='every ordering and coincidence of the values in every short history of operations',
  why='Tests accumulate and merge a handful of values; values that are invented, lost or counted twice by default construction, reassignment or merging only show for particular values and histories.',
  files=['source/fern/algorithm/accumulator/%s.h' % n for n in ('median', 'variance', 'standard_deviation', 'mode', 'detail/frequency_table')],
  state=[('collection of values or frequencies', 'exactly the values given since construction or the last assignment', 'source/fern/algorithm/accumulator/detail/frequency_table.h')],
  mech=[('operator=, operator(), operator|= and operator| of every accumulator', 'source/fern/algorithm/accumulator/median.h')],
  observe=['the value operator()() returns'], technique='expression equivalence of member functions over normalised LLVM IR: histories of up to four symbolic values with loops followed iteration by iteration, case split over value orderings', note='The containers and sorting of the standard library are stand-ins. Sums of floating point values are compared up to the order of the additions. The mean of the two middle values may be computed in any of the usual ways: overflow of their sum is not decided.'),
 dict(id='A18', title='Result types follow the documented rules',
  statement='The type computed for the result of combining two values follows the documented table for every pair of value types and does not depend on their order: the largest of two types of one category, the floating point type when there is one, and for a signed and an unsigned type the largest of the signed type and the signed type following the size of the unsigned one. A collection argument determines the container of the result, the first one if both are collections. add, subtract, multiply and divide report exactly these types. base_class picks the first of the listed classes that is a base.',
  over=['configurations'], quant='every pair of arithmetic value types and every pair of supported containers and scalars',
  why='Tests list one order of most pairs of value types and a few containers; a wrong entry shows up as a truncated result for one pair only.',
  files=['source/fern/algorithm/core/result_type.h', 'source/fern/algorithm/core/result_value.h', 'source/fern/algorithm/core/detail/result_value.h', 'source/fern/core/base_class.h', 'source/fern/core/typelist.h'] + ['source/fern/algorithm/algebra/elementary/%s.h' % n for n in ('add', 'subtract', 'multiply', 'divide')],
  mech=[('ResultValue per pair of number categories', 'source/fern/algorithm/core/detail/result_value.h')],
  observe=['the type'], technique='type-level witnesses: static assertions over all combinations, type checked against the current sources', note='Exhaustive over the arithmetic value types and the containers shipped with fern (vector, arrays, rasters and their masked forms, masked scalar).'),
 dict(id='A19', title='No-data policies test and mark exactly the documented elements',
  statement='The no-data policies test or mark the element they are asked about, at every rank: the policies by value use the given value or else the no-data value of the collection, the others the no-data value of the type, which is the largest value of an unsigned type and the smallest of any other. SkipNoData never and AllNoData always reports missing values, DontMarkNoData leaves the result alone. InputNoDataPolicies keeps the policies of the operands apart. is_no_data and set_no_data test and set that same value.',
  over=['inputs', 'configurations'], quant='every element, index, no-data value, value type and rank',
  why='Tests use one rank and one value type per policy; swapped indices or a wrong value in another overload only shows in multi-dimensional collections of another type.',
  files=['source/fern/algorithm/policy/%s.h' % n for n in ('detect_no_data', 'detect_no_data_by_value', 'mark_no_data', 'mark_no_data_by_value', 'skip_no_data', 'all_no_data', 'dont_mark_no_data', 'input_no_data_policies')] + ['source/fern/core/type_traits.h', 'source/fern/core/math.h'],
  mech=[('is_no_data and mark_as_no_data of every policy', 'source/fern/algorithm/policy/mark_no_data_by_value.h')],
  observe=['the verdict returned, the element stored to'], technique='expression equivalence of each member function with its definition over normalised LLVM IR of instantiations over an opaque collection', note='Exhaustive over value types and ranks 0 to 3.'),
]
