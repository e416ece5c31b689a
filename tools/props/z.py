"""Properties static analysis cannot decide here."""
AS = 'source/fern/algorithm/'
PROPS = [
 dict(id='A20', title='Floating point statistics are accurate',
  statement='The mean, variance, standard deviation, slope and convolution of floating point values differ from the exact value by no more than the rounding of the algorithm used allows, for any number of values and order of magnitude.',
  over=['inputs'], quant='every sequence of floating point values', why='Tests compare a few short sequences with a tolerance.',
  files=[AS + 'accumulator/variance.h', AS + 'accumulator/mean.h', AS + 'space/focal/slope.h'], mech=[('running sums', AS + 'accumulator/mean.h')],
  na='the rounding error depends on the magnitudes and the number of values, which no sound static bound over all inputs can limit usefully; which terms are combined, and how, is decided by A10, A13 and A15'),
 dict(id='C07', title='Submitted work makes progress',
  statement='Every task submitted to a pool that stays alive is started after a bounded delay, whatever the other tasks do, and destruction of the pool ends.',
  over=['schedules'], quant='every interleaving of submitters and workers, and every duration of tasks', why='Tests submit a few short tasks.',
  files=['source/fern/core/thread_pool.cc', 'source/fern/core/thread_pool.h'], mech=[('worker loop', 'source/fern/core/thread_pool.cc')],
  na='liveness under a scheduler and arbitrary task durations; tasks may block each other, and only a model of the scheduler could decide it. The safety half (no wait without time-out that a missed notification leaves asleep, stop, notify, join) is C01'),
 dict(id='I04', title='A raster written and read back is unchanged',
  statement='The cells, value type, extent and no-data value of a raster stored through GDAL are those found when the file is read.',
  over=['inputs', 'environment'], quant='every raster, file format and state of the file system', why='Tests store a few small rasters in one format.',
  files=['source/fern/io/gdal/dataset.cc'], mech=[('RasterIO in both directions', 'source/fern/io/gdal/read.h')],
  na='the round trip goes through the code of GDAL drivers and file formats, which are not part of this source tree; what fern asks of GDAL when reading is decided by I02'),
]
