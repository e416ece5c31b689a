"""The policy chosen at run time behaves as the one chosen at compile time."""
import localops, parcheck
LEVEL = 'other'


def run(ctx):
    ctx.explanation = ('For every local operation and selection operation that accepts the runtime policy: under the sequential (parallel) alternative the guarded events of a generic cell, and the use of the thread pool, equal those of the static policy.')
    parcheck.compare(ctx, localops.engine_entries() + localops.selection_entries(), [('seq', 'dyn:sequential'), ('par', 'dyn:parallel')], 'runtime policy', 'same', 100, ('seq', 'par', 'dyn'))
