"""Selection operations."""
import localops, localcheck
from localcheck import *
LEVEL = 'other'


def judge(e, mode, r, V, exp, seqs):
    return True if seqs == {exp} else describe(V, seqs, '[%s]' % ', '.join(map(show_ev, exp)))


def run(ctx):
    ctx.explanation = ('cover, if/then, if/then/else, unite, intersect and merge of no-data, and clamp, for every rank combination and execution policy: the complete decision table of a generic cell '
                       '(which inputs are no-data, whether the condition holds, how value and bounds compare) against the documented one.')
    localcheck.run(ctx, localops.selection_entries(), ('seq', 'par', 'dyn'), 'selection table', judge, 128, 'entries')
