"""Out-of-domain and out-of-range handling of local operations."""
import localops, localcheck
from localcheck import *
LEVEL = 'other'


def judge(e, mode, r, V, exp, seqs):
    dom = [a for a in V if a[0] == 'dom']; rng = [a for a in V if a[0] == 'rng']
    if not dom or any(V[a] for a in nd_atoms(V)): return None
    d, g = V[dom[0]], V[rng[0]]
    if not d:
        good = seqs and all(s and s[-1][0] == 'mark' and not computed(s) and not strays(s) for s in seqs)
        return True if good else describe(V, seqs, 'a final mark and no computation')
    if not g:
        good = seqs and all(s and s[-1][0] == 'mark' and not strays(s) for s in seqs)
        return True if good else describe(V, seqs, 'a final mark')
    good = seqs and all(not marks(s) and puts(s) for s in seqs)
    return True if good else describe(V, seqs, 'a value and no mark')


def run(ctx):
    ctx.explanation = ('For every local operation engine, rank combination and execution policy: the domain test sees exactly the operand values of the cell, the range test '
                       'sees the operands and the computed result, a cell failing either one is marked, a cell failing the domain test is not computed, and no other cell is marked.')
    localcheck.run(ctx, [e for e in localops.engine_entries() if e.op != 'nullary'], ('seq', 'par', 'dyn'), 'domain and range protocol', judge, 69, 'entries')
