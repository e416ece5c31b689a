"""Parallel execution gives what sequential execution gives."""
import localops, parcheck
LEVEL = 'other'


def run(ctx):
    ctx.explanation = ('For every local operation and selection operation: the guarded events of a generic cell of a generic partition block equal those of the sequential run, one task is submitted per block of a '
                       'partition of exactly the result extent, and every future is waited for before the operation returns.')
    parcheck.compare(ctx, localops.engine_entries() + localops.selection_entries(), [('seq', 'par')], 'parallel equals sequential', 'parallel', 52, ('seq', 'par'))
    ctx.assumptions.append('the partition returned for n workers is disjoint and covering (decided separately)')
