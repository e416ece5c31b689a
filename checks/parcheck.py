"""Comparison of execution policies: same table rows under both."""
import localops
from localcheck import *


def compare(ctx, entries, pairs, rule, protocol, minimum, modes):
    n = rows = 0
    for e, rs, err in localops.analyse_all(entries, modes):
        if err: ctx.undecided(rule, e.name.replace('vp_entry_', ''), err)
        rs = dict(rs)
        for a, b in pairs:
            if a not in rs or b not in rs: continue
            n += 1
            ra, rb = rs[a], rs[b]
            name = '%s [%s vs %s]' % (e.name.replace('vp_entry_', ''), b, a)
            if ra.error or rb.error:
                if ra.error and rb.error and ra.error.msg == rb.error.msg: ctx.ok(rule, name, 'same structural defect under both'); continue
                x = rb.error or ra.error
                ctx.bad(rule, name, x.loc, x.msg); continue
            bad = None
            for k in ra.rows:
                V, exp, sa = ra.rows[k]; sb = rb.rows[k][2]
                rows += 1
                if simple(sa) != simple(sb) and bad is None:
                    bad = (rb.locs[k], describe(V, sb, ' or '.join('[%s]' % ', '.join(map(show_ev, s)) for s in sa) + ' as under ' + a))
            if bad is None and protocol:
                for x in (ra, rb):
                    if x.protocol: bad = (x.protocol.loc, x.protocol.msg)
                if bad is None and protocol == 'parallel' and e.D and not rb.submits: bad = (e.header, 'no task is submitted to the thread pool')
            if bad is None and protocol == 'same' and bool(ra.submits) != bool(rb.submits): bad = (e.header, 'one of the two uses the thread pool, the other does not')
            if bad: ctx.bad(rule, name, bad[0], bad[1])
            else: ctx.ok(rule, name, '%d rows, %d task submission sites' % (len(ra.rows), rb.submits))
    ctx.need('policy pairs compared', n, minimum)
    ctx.counts['table rows compared'] = rows
    ctx.assumptions += ASSUME


def simple(seqs): return {tuple(x[:3] if x[0] == 'stray' else x for x in s if x != ('alg',)) for s in seqs}
