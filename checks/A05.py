"""Partitions of an index space."""
import build, partition
from cells import Mismatch
LEVEL = 'other'


def run(ctx):
    ctx.explanation = ('For the one- and two-dimensional partition functions: on every path the blocks produced, as polynomials in the requested number of blocks and the extents, start at zero, are adjacent '
                       '(end of block k is the begin of block k+1), never run backwards, end at the extent, and span the whole second dimension.')
    n = 0
    with build.Scratch() as d: fns = build.functions(partition.PROBE, scratch=d)
    for name, D in (('vp_entry_partition_1d', 1), ('vp_entry_partition_2d', 2)):
        p = partition.Partition(fns[name], D, None)
        inst = name.replace('vp_entry_', '')
        try:
            k = p.run()
            ctx.ok('partition', inst, '%d paths, %d block producers, %d identities' % (k, p.blocks, p.identities))
            n += p.identities
        except Mismatch as e: ctx.bad('partition', inst, e.loc, e.msg)
    if not ctx.violations: ctx.need('polynomial identities', n, 12)
    ctx.assumptions += ['the number of blocks requested is not zero (asserted by the library)', 'extents are small enough for their products not to wrap around']
