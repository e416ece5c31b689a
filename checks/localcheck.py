"""Shared by the checks on local operations: runs the table analysis once and
lets each property project the rows it speaks about."""
import localops
from localops import valuation_text, show_ev, table_clamp, table_if_then, table_if_else, table_cover, table_nullary, table_local, table_unite, table_intersect

ASSUME = ['probe instantiation: the templates are instantiated with opaque value, no-data, policy and algorithm types; a cell is observed through get/size/index and the policy functions only',
          'arguments of one call have equal shapes (the documented precondition) and row-major linear indexing',
          'opaque predicates are pure: two tests of the same predicate on the same cell agree']


def nd_atoms(V): return [a for a in V if a[0] == 'nd']


def run(ctx, entries, modes, rule, judge, minimum, what):
    """judge(entry, mode, result, V, expected, seqs) -> None (row out of scope),
    True (holds) or a text."""
    n_rows = n_inst = n_paths = 0
    for e, rs, err in localops.analyse_all(entries, modes):
        if err: ctx.undecided(rule, e.name.replace('vp_entry_', ''), err)
        for mode, r in rs:
            name = '%s [%s]' % (e.name.replace('vp_entry_', ''), mode)
            n_inst += 1; n_paths += r.paths
            if r.error:
                ctx.bad(rule, name, r.error.loc, r.error.msg); continue
            rows = 0; bad = None
            for k, (V, exp, seqs) in r.rows.items():
                j = judge(e, mode, r, V, exp, seqs)
                if j is None: continue
                rows += 1
                if j is not True and bad is None: bad = (r.locs[k], j)
            n_rows += rows
            if bad is None and rows and r.protocol: bad = (r.protocol.loc, r.protocol.msg)
            if bad: ctx.bad(rule, name, bad[0], bad[1])
            elif rows: ctx.ok(rule, name, '%d table rows, %d IR paths' % (rows, r.paths))
    ctx.need('entries analysed (operation x ranks x execution policy)', n_inst, minimum)
    ctx.counts['table rows compared'] = n_rows
    ctx.counts['IR paths read'] = n_paths
    ctx.assumptions += ASSUME


def describe(V, seqs, exp_text):
    got = ' or '.join('[%s]' % ', '.join(map(show_ev, s)) for s in sorted(seqs, key=repr)) or 'no path'
    return 'with {%s} a cell gets %s, expected %s' % (valuation_text(V), got, exp_text)


def marks(seq): return sum(1 for e in seq if e[0] == 'mark')
def puts(seq): return [e for e in seq if e[0] == 'put']
def computed(seq): return any(e == ('alg',) for e in seq)
def strays(seq): return [e for e in seq if e[0] == 'stray']
