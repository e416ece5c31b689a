"""Type-level witnesses: a program of static assertions about /repo's
templates that must compile.  Each failing assertion, and each witness whose
types can no longer be formed, is one violation."""
import multiprocessing, os, re
import build


class W:
    def __init__(self, name, cond, group='', where=''): self.name, self.cond, self.group, self.where = name, cond, group, where


def check(ctx, rule, prelude, witnesses, minimum, where, split=120, flags=()):
    parts = [witnesses[k:k + split] for k in range(0, len(witnesses), split)]
    with build.Scratch() as d, multiprocessing.Pool(8) as pool:
        for part, res in zip(parts, pool.starmap(_part, [(prelude, [w.cond for w in p], d, 'w%d' % k, tuple(flags)) for k, p in enumerate(parts)])):
            if isinstance(res, str): ctx.error(res); continue
            for k, w in enumerate(part):
                if k in res: ctx.bad(rule, w.name, w.where or where, res[k])
                else: ctx.ok(rule, w.name, 'compiles')
    ctx.need(rule + ': witnesses', len(witnesses), minimum)


def _part(prelude, conds, d, name, flags=()):
    src = os.path.join(d, name + '.cc')
    head = prelude.count('\n')
    with open(src, 'w') as f: f.write(prelude + ''.join('static_assert((%s), "witness");\n' % c for c in conds))
    cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', '-fno-exceptions', '-DBOOST_NO_EXCEPTIONS'] + build.includes(False) + list(flags) + [src]
    r = build.run(cmd)
    bad = {}
    if r.returncode == 0: return bad
    cur = None
    mine = re.compile(re.escape(src) + r':(\d+):')
    unplaced = []
    msg = None; placed = True
    for l in r.stderr.splitlines():
        m = mine.match(l)
        if re.search(r': (fatal )?error: ', l):
            if not placed: unplaced.append(msg)
            msg, placed = l.split('error: ', 1)[1], False
        if m and not placed:
            k = int(m.group(1)) - head - 1
            if 0 <= k < len(conds):
                bad.setdefault(k, ('does not hold: ' if 'static assertion failed' in msg else 'cannot be formed: ') + msg[:300]); placed = True
    if msg and not placed: unplaced.append(msg)
    if unplaced and not bad: return 'the witnesses do not compile: ' + '; '.join(unplaced[:3])[:1000]
    if not bad: return 'the witnesses do not compile: ' + r.stderr[-500:]
    return bad
