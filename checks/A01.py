"""No-data propagation through local operations."""
import localops, localcheck
from localcheck import *
LEVEL = 'other'


def judge(e, mode, r, V, exp, seqs):
    nd = nd_atoms(V)
    if any(V[a] for a in nd):
        # a missing input: the result cell is marked, not written, nothing else happens
        good = seqs and all(s and s[-1][0] == 'mark' and not computed(s) and not strays(s) for s in seqs)
        return True if good else describe(V, seqs, 'a final mark and no computation')
    if all(V[a] for a in V if a[0] in ('dom', 'rng')):
        good = seqs and all(marks(s) == 0 for s in seqs) and not any(x[0] == 'stray' and x[1] == 'mark' for s in seqs for x in s)
        return True if good else describe(V, seqs, 'no mark')
    return None


def run(ctx):
    ctx.explanation = ('For every unary, binary, nullary and n-ary local operation, rank combination and execution policy: the guarded events of a '
                       'generic result cell, read from the normalised IR, mark the cell last and compute nothing whenever an input is no-data, and do not mark it when all inputs are valid and the policies accept.')
    localcheck.run(ctx, localops.engine_entries(), ('seq', 'par', 'dyn'), 'no-data propagation', judge, 78, 'entries')
