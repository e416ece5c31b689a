"""Every cell once, from its own operands."""
import localops, localcheck
from localcheck import *
LEVEL = 'other'


def judge(e, mode, r, V, exp, seqs):
    if any(V[a] for a in V if a[0] == 'nd') or not all(V[a] for a in V if a[0] in ('dom', 'rng')): return None
    want = [x for x in exp if x[0] == 'put']
    good = seqs and all(puts(s) == want and not strays(s) for s in seqs)
    return True if good else describe(V, seqs, '[%s] exactly once per cell' % ', '.join(map(show_ev, want)))


def run(ctx):
    ctx.explanation = ('For every local operation engine and rank combination and execution policy: the loop nest visits every cell of the result exactly once (affine index against the '
                       'iteration counts from scalar evolution), and the value written is the algorithm applied to the unconverted operands of that same cell, scalars being reused for every cell.')
    localcheck.run(ctx, localops.engine_entries(), ('seq', 'par', 'dyn'), 'every cell once', judge, 78, 'entries')
