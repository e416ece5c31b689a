"""Laws: pairs of probe functions (implementation, reference) over the same
arguments, compared by scalar.compare."""
import re, zlib
import build, scalar
from cells import Mismatch
from ir import *


class Law:
    def __init__(self, name, sig, impl, ref, where='', pre=None, header=None, top='', cases=None, expect=None, ret='void', points=None):
        self.ret = ret
        self.points = points
        self.cases, self.expect = cases, expect
        self.name, self.sig, self.impl, self.ref, self.pre, self.header = name, sig, impl, ref, pre, header
        self.where = where or ('source/' + header if header else '?')
        self.top = top
        self.id = '%s_%08x' % (re.sub(r'\W', '_', name), zlib.crc32(name.encode()))

    def text(self):
        if self.expect: return self.top + '\nbool vp_entry_i_%s(%s) { %s }\n' % (self.id, self.sig, self.impl)
        return self.top + '\n%s vp_entry_i_%s(%s) { %s }\n' % (self.ret, self.id, self.sig, self.impl) + ''.join('%s vp_entry_r%s_%s(%s) { %s }\n' % (self.ret, k or '', self.id, self.sig, r) for k, r in enumerate(self.refs()))

    def refs(self): return [self.ref] if isinstance(self.ref, str) else list(self.ref)      # alternatives: any one will do


_WORK = []


def check(ctx, rule, prelude, laws, minimum, flags=(), hooks=None, shim=True, irx_args=(), effects=True, exceptions=False, only=None):
    """Compile the laws in groups by header and compare each.  With `only` (a
    pattern), only calls of functions with such names and the value returned
    are compared."""
    import multiprocessing
    groups = {}
    for l in laws: groups.setdefault(l.header, []).append(l)
    each = 2 if any(l.points for l in laws) else 24
    groups = {(h, k): g[k:k + each] for h, g in groups.items() for k in range(0, len(g), each)}
    n = 0
    global _WORK
    _WORK = list(groups.values())
    with build.Scratch() as d:
        with multiprocessing.Pool(8) as pool:
            rs = []
            for k, ((h, _), g) in enumerate(groups.items()):
                rs.append((g, pool.apply_async(_group, (prelude, h, k, d, 'laws%d' % k, flags, shim, hooks, irx_args, effects, exceptions, only))))
            for g, r in rs:
                for l, (kind, a, b) in zip(g, r.get()):
                    if kind == 'ok': ctx.ok(rule, l.name, '%d cases' % a); n += 1
                    elif kind == 'bad': ctx.bad(rule, l.name, a if a != '?' else l.where, b); n += 1
                    else: ctx.undecided(rule, l.name, a); n += 1
    ctx.need('laws compared', n, minimum)
    return n


def idioms(o):
    """Functions of the standard library and boost on which the outcomes
    depend: the same can be said in many ways with these."""
    out = set()
    def walk(x):
        if isinstance(x, Poly):
            for a in x.atoms(): walk(a)
        elif isinstance(x, (tuple, list)):
            if len(x) > 1 and isinstance(x, tuple) and x[0] in ('call', 'made') and isinstance(x[1], str):
                n = re.sub(r'\[abi:\w+\]', '', x[1])
                n = re.search(r'(~?[\w]+|operator[^\w ]+)$', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', n)))))
                if re.search(r'\b(std|boost)::', x[1]) and 'fern::' not in x[1].split('<')[0] and n and n.group(1) not in ('basic_string', 'vector', 'basic_format') and '~' not in n.group(1): out.add(n.group(1))
            for y in x: walk(y)
    walk(o.paths)
    return out


def _group(prelude, header, work, d, name, flags, shim, hooks, irx_args=(), effects=True, exceptions=False, only=None):
    laws = _WORK[work]      # inherited through fork
    text = prelude + ('#include "%s"\n' % header if header else '') + ''.join(l.text() for l in laws)
    fns, failed = {}, {}
    try: fns = build.functions(text, scratch=d, name=name, flags=flags, shim=shim, irx_args=irx_args, exceptions=exceptions)
    except build.ToolError as e:
        if len(laws) == 1: return [('err', str(e), None)]
        for n, l in enumerate(laws):
            try: fns.update(build.functions(prelude + ('#include "%s"\n' % header if header else '') + l.text(), scratch=d, name='%s_%d' % (name, n), flags=flags, shim=shim, irx_args=irx_args, exceptions=exceptions))
            except build.ToolError as e: failed[l.id] = str(e)
    out = []
    for l in laws:
        if l.id in failed: out.append(('err', failed[l.id], None)); continue
        try:
            if l.expect:
                i = Fn(canonical(fns['vp_entry_i_' + l.id]))
                if hooks: hooks(i)
                out.append(('ok', scalar.decide(scalar.Outcomes(i), l.cases, l.expect), None))
                continue
            n = None; known, foreign = set(), set()
            for k in range(len(l.refs())):
                i, r = Fn(canonical(fns['vp_entry_i_' + l.id])), Fn(canonical(fns['vp_entry_r%s_%s' % (k or '', l.id)]))
                if hooks:
                    for f in (i, r): hooks(f)
                i, r = scalar.Outcomes(i, effects, only), scalar.Outcomes(r, effects, only)
                try: n = scalar.compare(i, r, l.pre, points=l.points); break
                except Mismatch as e: first = e if k == 0 else first
                if only: known |= idioms(r); foreign |= idioms(i)
            if n is None and foreign - known: raise Unsupported('it is written with %s, for which there is no rule (%s)' % (', '.join(sorted(foreign - known)), first.msg[:200]))
            if n is None: raise first
            out.append(('ok', n, None))
        except Mismatch as e: out.append(('bad', e.loc, e.msg))
        except Unsupported as e: out.append(('err', str(e), None))
        except Exception as e: out.append(('err', 'internal: %s: %s' % (type(e).__name__, e), None))
    return out
