"""Guarded event tables from normalised IR (the JSON written by irx).

Nothing is executed and no solver is involved: every function is turned into
a tree of straight-line paths and loops; values are written as expressions
over the opaque probe functions; integer expressions are polynomials over
loop counters and opaque sizes.
"""
import json, math, re, sys

MASK = 1 << 64


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- polynomials
def _norm(c):
    c %= MASK
    return c - MASK if c >= MASK // 2 else c


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = {m: c for m, c in ((m, _norm(c)) for m, c in t.items()) if c}
        self._h = None

    @staticmethod
    def const(n): return Poly({(): n})

    @staticmethod
    def atom(a): return Poly({(a,): 1})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items(): t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr)); t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_const(self): return not self.t or list(self.t) == [()]

    def value(self): return self.t.get((), 0)

    def atoms(self): return {a for m in self.t for a in m}

    def sole_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1: return m[0]
        return None

    def subst(self, f):
        """f: atom -> Poly or None"""
        r = Poly({})
        for m, c in self.t.items():
            p = Poly.const(c)
            for a in m:
                q = f(a)
                p = p * (q if q is not None else Poly.atom(a))
            r = r + p
        return r

    def coeff(self, a):
        """Coefficient polynomial of a (linear part)."""
        r = {}
        for m, c in self.t.items():
            if m.count(a) == 1:
                l = list(m); l.remove(a); k = tuple(l); r[k] = r.get(k, 0) + c
            elif m.count(a) > 1: return None
        return Poly(r)

    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            s = '*'.join(show(a) for a in m)
            if not s: s = str(c)
            elif c == -1: s = '-' + s
            elif c != 1: s = '%d*%s' % (c, s)
            out.append(s)
        return ' + '.join(out)


def show(e):
    if isinstance(e, Poly): return '(%r)' % e
    if isinstance(e, tuple):
        if e and e[0] == 'k': return 'k%s' % (e[1],)
        if e and e[0] == 'S': return 'S%s' % ','.join(map(str, e[1:]))
        if e and e[0] == 'call': return '%s%s(%s)' % (e[1], '<%s>' % ','.join(e[2]) if e[2] else '', ', '.join(show(x) for x in e[3:]))
        if e and e[0] == 'arg': return 'arg%d' % e[1]
        return '%s(%s)' % (e[0], ', '.join(show(x) for x in e[1:])) if e else '()'
    return str(e)


# ----------------------------------------------------------------- callee names
def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def callee_name(dem):
    """(base name, template args) of a demangled function name."""
    s = dem
    # strip the parameter list (first '(' at template depth 0)
    d = 0
    cut = len(s)
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<' and not s[:i].endswith('operator') and not s[:i].endswith('operator<'): d += 1
        elif ch == '>' and not s[:i].endswith('operator') and not s[:i].endswith('operator>') and not s[:i].endswith('-'): d -= 1
        elif ch == '(' and d == 0:
            if s[:i].endswith('operator') and s[i:i + 2] == '()': i += 2; continue
            if s.startswith('(anonymous namespace)', i): i += len('(anonymous namespace)'); continue
            cut = i; break
        i += 1
    s = s[:cut]
    t = []
    if s.endswith('>'):
        d = 0
        for j in range(len(s) - 1, -1, -1):
            if s[j] == '>': d += 1
            elif s[j] == '<':
                d -= 1
                if d == 0: t = split_targs(s[j + 1:-1]); s = s[:j]; break
    # drop a leading return type (function templates)
    d = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] == '>': d += 1
        elif s[j] == '<': d -= 1
        elif s[j] == ' ' and d == 0 and 'operator' not in s[j:]: s = s[j + 1:]; break
    return s, tuple(t)


WIDTH = re.compile(r'^i(\d+)$')


def deep(e, f):
    """Rewrite e bottom-up; f(node) -> replacement or None.  Polynomials are
    rebuilt from their rewritten atoms."""
    if isinstance(e, Poly):
        r = e.subst(lambda a: _aspoly(deep(a, f), a))
        x = f(r)
        if x is None: return r
        return x
    if isinstance(e, tuple):
        r = tuple(deep(x, f) if isinstance(x, (tuple, Poly)) else x for x in e)
        x = f(r)
        return r if x is None else x
    return e


def _aspoly(x, a):
    if isinstance(x, Poly): return x
    return None if x == a else Poly.atom(x)


def contains(e, pred):
    if isinstance(e, Poly): return any(contains(a, pred) for a in e.atoms())
    if isinstance(e, tuple): return pred(e) or any(contains(x, pred) for x in e if isinstance(x, (tuple, Poly)))
    return False


def canonical(j):
    """The function with its local objects named in the order of their first
    use rather than that of their declaration."""
    import copy
    ids = [i['id'] for b in j['blocks'] for i in b['insts'] if i['op'] == 'alloca']
    if not ids: return j
    order = {}
    for b in j['blocks']:
        for i in b['insts']:
            if i['op'] == 'alloca' or i.get('intrinsic') and i['mangled'].startswith('llvm.lifetime'): continue
            for o in i.get('ops', ()):
                if o.get('v') in ids: order.setdefault(o['v'], 1000000 + len(order))
    if not order: return j
    j = copy.deepcopy(j)
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('v', 'id') and isinstance(v, int) and v in order: x[k] = order[v]
                elif isinstance(v, (dict, list)): walk(v)
        elif isinstance(x, list):
            for y in x: walk(y)
    for b in j['blocks']:
        for i in b['insts']: walk(i)
    for l in j['loops']: walk({k: v for k, v in l.items() if k != 'id'})
    return j


class Fn:
    """One analysed function."""

    def __init__(self, j, consts=None, pure=()):
        self.j = j
        self.name = j['demangled'].split('(')[0]
        self.whole = False
        self.demangled = j['demangled']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.loops = {l['id']: l for l in j['loops']}
        self.header = {l['header']: l['id'] for l in j['loops']}
        self.loop_blocks = {l['id']: set(l['blocks']) for l in j['loops']}
        self.args = {a['id']: n for n, a in enumerate(j['args'])}
        self.inst = {}
        self.block_of = {}
        for b in j['blocks']:
            for i in b['insts']:
                self.inst[i['id']] = i; self.block_of[i['id']] = b['id']
        self.consts = consts or {}     # expr -> int: values assumed
        self.pure = pure               # extra callees to treat as pure
        self.n_paths = 0
        self.n_events = 0
        self.max_paths = 20000
        self.loop_memo = {}
        self.expr_hook = None
        self.booleans = set()       # addresses loads of which are 0 or 1

        self.copied = {}            # local copies of a block of a partition -> what they are copies of
        self.once = self.single_copies()

    def unfold(self):
        """Follow loops iteration by iteration, for functions whose extents
        are constants, with local memory as values."""
        self.whole = True
        self.loops, self.header, self.loop_blocks = {}, {}, {}
        for b in self.blocks.values(): b['insts'] = [{k: v for k, v in i.items() if k != 'scev'} for i in b['insts']]
        self.inst = {i['id']: i for b in self.blocks.values() for i in b['insts']}
        self.once = {}

    def place(self, a):
        """(local object, offset) of an address"""
        if not isinstance(a, tuple): return None
        base, off = (a[1], a[2]) if a[0] == 'off' else (a, Poly.const(0))
        if not (isinstance(base, tuple) and base[0] == 'alloca'): return None
        if not off.is_const(): raise Unsupported('local memory at an unknown place')
        return base[1], off.value()

    def local(self, i, env):
        """Writes to local memory.  True if that is what the instruction is."""
        if i['op'] == 'store':
            p = self.place(self.operand(i['ops'][1], env))
            if p is None: return False
            n = self.bytes(i['sty'])
            self.forget(env, p, n)
            env[('mem',) + p] = (self.operand(i['ops'][0], env), n)
            return True
        if i.get('intrinsic') and i['mangled'].startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            p = self.place(self.operand(i['ops'][0], env)); n = self.const_of(self.operand(i['ops'][2], env))
            if p is None: return False
            if n is None: raise Unsupported('local memory of unknown size')
            if i['mangled'].startswith('llvm.memset'):
                if self.const_of(self.operand(i['ops'][1], env)) != 0: raise Unsupported('local memory filled')
                self.forget(env, p, n)
                env[('zero', p[0])] = env.get(('zero', p[0]), frozenset()) | frozenset(range(p[1], p[1] + n))
                return True
            src = self.operand(i['ops'][1], env); q = self.place(src)
            if q is None: self.forget(env, p, n); env[('mem',) + p] = (('load', src, 'block%d' % n), n); return True
            new = {}
            for k, v in env.items():
                if isinstance(k, tuple) and k[0] == 'mem' and k[1] == q[0] and q[1] <= k[2] and k[2] + v[1] <= q[1] + n: new[('mem', p[0], k[2] - q[1] + p[1])] = v
            zero = frozenset(x - q[1] + p[1] for x in env.get(('zero', q[0]), ()) if q[1] <= x < q[1] + n)
            self.forget(env, p, n); env.update(new)
            env[('zero', p[0])] = env.get(('zero', p[0]), frozenset()) | zero
            return True
        return bool(i.get('intrinsic') and i['mangled'].startswith('llvm.lifetime'))

    def forget(self, env, p, n):
        for k in [k for k, v in env.items() if isinstance(k, tuple) and k[0] == 'mem' and k[1] == p[0] and k[2] < p[1] + n and p[1] < k[2] + v[1]]: del env[k]
        z = env.get(('zero', p[0]))
        if z: env[('zero', p[0])] = z - frozenset(range(p[1], p[1] + n))

    def bytes(self, ty):
        m = re.match(r'i(\d+)$', ty)
        if m: return (int(m.group(1)) + 7) // 8
        n = {'ptr': 8, 'double': 8, 'float': 4}.get(ty)
        if n is None: raise Unsupported('local memory of type ' + ty)
        return n

    def recall(self, p, ty, env):
        n = self.bytes(ty)
        v = env.get(('mem',) + p)
        if v is not None:
            if v[1] != n: raise Unsupported('local memory read in another type')
            return v[0]
        if frozenset(range(p[1], p[1] + n)) <= env.get(('zero', p[0]), frozenset()): return ('null',) if ty == 'ptr' else ('bool', 0) if ty == 'i1' else Poly.const(0)
        if any(isinstance(k, tuple) and k[0] == 'mem' and k[1] == p[0] and k[2] < p[1] + n and p[1] < k[2] + v[1] for k, v in env.items()): raise Unsupported('local memory read in parts')
        return ('undef',)

    def single_copies(self):
        """memcpy instructions that are all that is written to their local
        destination."""
        writes = {}
        def root(o):
            i = self.inst.get(o.get('v'))
            while i is not None and i['op'] in ('getelementptr', 'bitcast'): i = self.inst.get(i['ops'][0].get('v'))
            return i['id'] if i is not None and i['op'] == 'alloca' else None
        for i in self.inst.values():
            if i['op'] == 'store': d = i['ops'][1]
            elif i.get('intrinsic') and i['mangled'].startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')): d = i['ops'][0]
            else: continue
            r = root(d)
            if r is not None: writes.setdefault(r, []).append(i['id'] if i['op'] != 'store' and d.get('v') == r and i['mangled'].startswith('llvm.memcpy') else None)
        return {w[0]: r for r, w in writes.items() if len(w) == 1 and w[0] is not None}

    def note_copy(self, i, src, n):
        base = src[1] if isinstance(src, tuple) and src[0] == 'off' else src
        ok = isinstance(base, tuple) and (base[:2] == ('call', 'vpx_ranges_data') or base[0] == 'alloca' and base[1] in self.copied)
        if ok: self.copied[self.once[i['id']]] = src

    def through_copies(self, a):
        base = a[1] if isinstance(a, tuple) and a[0] == 'off' else a
        while isinstance(base, tuple) and base[0] == 'alloca' and base[1] in self.copied:
            a = self.offset(self.copied[base[1]], a[2] if a[0] == 'off' else Poly.const(0))
            base = a[1] if a[0] == 'off' else a
        return a

    # ------------------------------------------------------------- expressions
    def operand(self, o, env):
        if 'v' in o:
            v = o['v']
            if v in env: return env[v]
            if v in self.args: return ('arg', self.args[v])
            i = self.inst.get(v)
            if i is None: raise Unsupported('unknown value')
            if i['op'] == 'alloca': return ('alloca', v)
            # defined in a block that dominates but was not walked on this
            # path: evaluate on demand
            return self.eval(i, env)
        if 'c' in o:
            return Poly.const(int(o['c'])) if o['w'] != 1 else ('bool', int(o['c']) & 1)
        if 'f' in o: return ('f', o['f'], o['ty'])
        if 'null' in o: return ('null',)
        if 'undef' in o: return ('undef',)
        if 'g' in o: return ('global', o['g'])
        if 'ce' in o:
            if o['ce'] == 'getelementptr' and 'off' in o: return self.offset(self.operand(o['ops'][0], env), Poly.const(o['off']))
            return ('ce', o['ce']) + tuple(self.operand(x, env) for x in o['ops'])
        if 'agg' in o: return ('agg',) + tuple(self.operand(x, env) for x in o['agg'])
        if 'aggzero' in o: return ('aggzero',)
        if 'md' in o: return ('md',)
        return ('other', json.dumps(o, sort_keys=True))

    def offset(self, base, off):
        if isinstance(base, tuple) and base[0] == 'off': base, off = base[1], base[2] + off
        return base if off == Poly.const(0) else ('off', base, off)

    def poly(self, e):
        return e if isinstance(e, Poly) else Poly.atom(e)

    def scev(self, s, env):
        k = s['k']
        if k == 'const': return Poly.const(int(s['c']))
        if k == 'unk':
            e = self.operand(s['o'], env); return self.poly(e)
        if k == 'add':
            ops = [self.scev(x, env) for x in s['a']]
            ptr = [self.ptr_of(p) for p in ops]
            r = Poly({})
            for p in ops: r = r + p
            return r
        if k == 'mul':
            r = Poly.const(1)
            for x in s['a']: r = r * self.scev(x, env)
            return r
        if k == 'rec':
            if len(s['a']) != 2: raise Unsupported('nonlinear recurrence')
            return self.scev(s['a'][0], env) + self.scev(s['a'][1], env) * Poly.atom(('k', s['l']))
        if k in ('zext', 'sext'):
            p = self.scev(s['a'], env)
            return p if p.is_const() or self.nowrap_ext(p) else Poly.atom(('cast', k, 'i%d' % s['w'], p.sole_atom() or p, 'i%d' % s['sw']))
        if k == 'trunc':
            p = self.scev(s['a'], env)
            return p if p.is_const() else Poly.atom(('cast', k, 'i%d' % s['w'], p.sole_atom() or p, 'i%d' % s['sw']))
        if k == 'ptrtoint': return self.scev(s['a'], env)
        if k in ('umax', 'umin', 'smax', 'smin'):
            return self.minmax(k, [self.scev(x, env) for x in s['a']])
        if k == 'udiv':
            a, b = (self.scev(x, env) for x in s['a'])
            return self.udiv(a, b)
        raise Unsupported('scev ' + k)

    def nowrap_ext(self, p): return False

    def ptr_of(self, p): return None

    def minmax(self, k, ps):
        if all(p.is_const() for p in ps):
            return Poly.const(max(p.value() for p in ps) if k.endswith('max') else min(p.value() for p in ps))
        if k == 'umax': ps = [p for p in ps if p != Poly.const(0)]
        ps = sorted(set(ps), key=repr)
        return ps[0] if len(ps) == 1 else Poly.atom((k,) + tuple(ps))

    def udiv(self, a, b):
        if b.is_const() and b.value() > 0:
            n = b.value()
            if a.is_const() and a.value() >= 0: return Poly.const(a.value() // n)
            if n == 1: return a
            if all(c % n == 0 for c in a.t.values()): return Poly({m: c // n for m, c in a.t.items()})
        return Poly.atom(('udiv', a, b))

    def const_of(self, e):
        if isinstance(e, Poly):
            if e.is_const(): return e.value()
            e2 = e.sole_atom()
            return self.consts.get(e2) if e2 is not None else None
        if isinstance(e, tuple) and e[0] == 'bool': return e[1]
        return self.consts.get(e)

    def signed(self, n, w):
        n %= (1 << w)
        return n - (1 << w) if n >= 1 << (w - 1) else n

    def eval(self, i, env):
        op = i['op']
        O = lambda n: self.operand(i['ops'][n], env)
        if op == 'phi':
            # header phi reached through LCSSA / on demand
            if 'scev' in i:
                try: return self.simplify(self.scev(i['scev'], env)) if i['scev']['k'] != 'unk' else ('phi', i['id'])
                except Unsupported: return ('phi', i['id'])
            return ('phi', i['id'])
        m = WIDTH.match(i['ty'])
        w = int(m.group(1)) if m else None
        if op in ('add', 'sub', 'mul') and w and w > 1:
            a, b = self.poly(O(0)), self.poly(O(1))
            if w == 64: return {'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__}[op](b)
            if a.is_const() and b.is_const(): return Poly.const(self.signed({'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__}[op](b).value(), w))
            return {'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__}[op](b) if i.get('nsw') or i.get('nuw') else ('op', op, w) + ((b, a) if op != 'sub' and repr(b) < repr(a) else (a, b))
        if op == 'shl' and w and w > 1:
            a, b = self.poly(O(0)), self.poly(O(1))
            if b.is_const() and w == 64: return a * Poly.const(1 << b.value())
            return ('op', op, w, a, b)
        if op in ('lshr', 'udiv', 'urem', 'and', 'or', 'xor', 'sdiv', 'srem', 'ashr'):
            a, b = O(0), O(1)
            if w == 1: return self.boolop(op, a, b)
            a, b = self.poly(a), self.poly(b)
            if op == 'lshr' and b.is_const() and w == 64: return self.udiv(a, Poly.const(1 << b.value()))
            if op == 'udiv' and w == 64: return self.udiv(a, b)
            if op == 'urem' and w == 64 and not (self.const_of(a) is not None and self.const_of(b) is not None): return a - b * self.udiv(a, b)
            if op == 'or' and i.get('disjoint'): return a + b
            ca, cb = self.const_of(a), self.const_of(b)
            if ca is not None and cb is not None:
                ua, ub = ca % (1 << w), cb % (1 << w)
                sa, sb = self.signed(ca, w), self.signed(cb, w)
                try:
                    r = {'lshr': lambda: ua >> ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'and': lambda: ua & ub, 'or': lambda: ua | ub,
                         'xor': lambda: ua ^ ub, 'sdiv': lambda: int(sa / sb), 'srem': lambda: sa - sb * int(sa / sb), 'ashr': lambda: sa >> ub}[op]()
                    return Poly.const(self.signed(r, w))
                except ZeroDivisionError: pass
            if op == 'sdiv' and b.is_const() and i.get('exact') and not self.whole: return self.udiv(a, b)
            if self.whole and op in ('sdiv', 'udiv') and b == Poly.const(1): return a
            if self.whole and op == 'sdiv' and b.is_const() and b.value() < -1: return Poly.const(0) - self.poly(('op', op, w, a, Poly.const(-b.value())))
            if op in ('and', 'or', 'xor') and repr(b) < repr(a): a, b = b, a
            return ('op', op, w, a, b)
        if op in ('zext', 'sext', 'trunc'):
            a = O(0)
            c = self.const_of(a)
            if op == 'zext' and isinstance(a, tuple) and a[0] == 'bool': return Poly.const(a[1])
            if c is not None:
                if isinstance(a, tuple) and a[0] == 'bool': return Poly.const(-a[1] if op == 'sext' else a[1])
                return Poly.const(self.signed(c, w)) if w > 1 else ('bool', c & 1)
            if w == 1 and op == 'trunc': return ('tobool', a)
            return ('cast', op, i['ty'], a, i['srcty'])
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            a = O(0)
            if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'): return a
            if self.whole and op in ('sitofp', 'uitofp') and self.const_of(a) is not None: return self.real(float(self.const_of(a)), i['ty'])
            if self.whole and isinstance(a, tuple) and a[0] == 'f' and a[1].isdigit() and len(a[1]) < 6:
                return Poly.const(int(a[1])) if op.startswith('fpto') else ('f', a[1], i['ty'])
            return ('cast', op, i['ty'], a, i['srcty'])
        if op == 'icmp' or op == 'fcmp': return self.cmp(i, i['pred'], O(0), O(1))
        if op == 'select':
            c, a, b = O(0), O(1), O(2)
            if isinstance(c, tuple) and c[0] == 'bool': return a if c[1] else b
            if w == 1: return self.simplify_bool(('ite', c, a, b))
            return a if a == b else ('ite', c, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = O(0), O(1)
            if self.whole and op == 'fdiv' and isinstance(b, tuple) and b[0] == 'f' and re.match(r'[0-9.]+$', b[1]):     # as LLVM writes it
                v = float(b[1])
                if v == 1: return a
                if v and abs(math.frexp(v)[0]) == 0.5: op, b = 'fmul', self.real(1 / v, i['ty'])
            if self.whole and op == 'fadd':     # up to the order of additions
                terms = []
                for x in (a, b):
                    while isinstance(x, tuple) and x[:2] == ('op', 'fadd'): terms.append(x[4]); x = x[3]
                    terms.append(x)
                terms = sorted((x for x in terms if x[:2] not in (('f', '0'), ('f', '-0'))), key=repr)
                if not terms: return a
                r = terms[0]
                for x in terms[1:]: r = ('op', 'fadd', i['ty'], r, x)
                return r
            if self.whole and op == 'fmul' and a == b and isinstance(a, tuple) and a[:2] == ('op', 'fsub') and repr(a[4]) < repr(a[3]): a = b = a[:3] + (a[4], a[3])
            if op in ('fadd', 'fmul') and repr(b) < repr(a): a, b = b, a
            return ('op', op, i['ty'], a, b)
        if op == 'fneg': return ('op', op, i['ty'], O(0))
        if op == 'getelementptr':
            if self.whole and 'off' not in i and 'strides' in i:
                d = Poly.const(i['rest'])
                for x, scale in i['strides']: d = d + self.poly(self.operand(x, env)) * Poly.const(scale)
                return self.offset(O(0), d)
            if 'scev' in i or (self.whole and 'off' in i):
                base = O(0)
                try: return self.gep(i, env)
                except Unsupported: pass
            return ('gep',) + tuple(self.operand(x, env) for x in i['ops'])
        if op == 'load':
            a = self.through_copies(O(0))
            p = self.place(a) if self.whole else None
            if p is not None: return self.recall(p, i['ty'], env)
            if isinstance(a, tuple) and a[0] == 'global' and 'init' in i['ops'][0]: return self.operand(i['ops'][0]['init'], env)
            if i.get('boolean'): self.booleans.add(a)
            return ('load', a, i['ty'])
        if op == 'extractvalue':
            a = O(0)
            for x in i['idx']:
                if isinstance(a, tuple) and a[0] == 'agg': a = a[1 + x]
                elif isinstance(a, tuple) and a[0] == 'insert':
                    while isinstance(a, tuple) and a[0] == 'insert' and a[2] != (x,): a = a[1]
                    a = a[3] if isinstance(a, tuple) and a[0] == 'insert' else ('extract', a, x)
                else: a = ('extract', a, x)
            return a
        if op == 'insertvalue': return ('insert', O(0), tuple(i['idx']), O(1))
        if op in ('call', 'invoke'):
            n, t = callee_name(i['callee']) if 'callee' in i else ('<indirect>', ())
            a = tuple(self.operand(x, env) for x in i['ops'])
            if i.get('intrinsic'): n = i['mangled']
            if self.whole and n in ('sqrt', 'sqrtf', 'llvm.sqrt.f32', 'llvm.sqrt.f64') and isinstance(a[0], tuple) and a[0][0] == 'f' and a[0][1] in ('0', '1'): return a[0]
            r = ('call', n, t) + a
            c = self.consts.get(r)
            if c is not None: return ('bool', c & 1) if w == 1 else Poly.const(c)
            if self.expr_hook:
                x = self.expr_hook(r, w)
                if x is not None: return x
            return r
        if op == 'alloca': return ('alloca', i['id'])
        return ('opaque', op, i['id'])

    def gep(self, i, env):
        # base + constant/scaled offset, from the instruction itself
        base = self.operand(i['ops'][0], env)
        if 'off' in i: return self.offset(base, Poly.const(i['off']))
        idx = [self.operand(x, env) for x in i['ops'][1:]]
        p = self.poly(idx[0]) * Poly.const(i['srcsize'])
        if len(idx) > 1:
            # nested aggregate: use scalar evolution of the address
            s = self.scev(i['scev'], env)
            b = Poly.atom(base)
            d = s - b
            return self.offset(base, d)
        return self.offset(base, p)

    def simplify(self, p): return p

    def boolop(self, op, a, b):
        return self.simplify_bool((op, a, b))

    def simplify_bool(self, e):
        if e[0] in ('and', 'or', 'xor'):
            a, b = e[1], e[2]
            for x, y in ((a, b), (b, a)):
                if x[0] == 'bool':
                    if e[0] == 'and': return y if x[1] else ('bool', 0)
                    if e[0] == 'or': return ('bool', 1) if x[1] else y
                    if e[0] == 'xor': return ('not', y) if x[1] and y[0] != 'not' else (y[1] if x[1] else y)
        if e[0] == 'ite':
            c, a, b = e[1:]
            if a == b: return a
            if a[0] == 'bool' and a[1]: return self.simplify_bool(('or', c, b))
            if b[0] == 'bool' and not b[1]: return self.simplify_bool(('and', c, a))
        return e

    def real(self, v, ty): return ('f', str(int(v)) if v == int(v) else repr(v), ty)

    def distinct(self, a, b):
        """addresses that cannot be the same: a local object, and null or
        another local object"""
        def root(x): return x[1] if isinstance(x, tuple) and x[0] == 'off' else x
        for x, y in ((a, b), (b, a)):       # a member of something is somewhere
            if x == ('null',) and isinstance(y, tuple) and y[0] == 'off' and y[2].is_const() and y[2].value() > 0 and isinstance(y[1], tuple) and y[1][0] == 'arg': return True
        a, b = root(a), root(b)
        return all(isinstance(x, tuple) and x[0] in ('alloca', 'null') for x in (a, b)) and a != b

    def cmp(self, i, pred, a, b):
        if i['op'] == 'icmp':
            w = None
            ca, cb = self.const_of(a), self.const_of(b)
            if self.whole and pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                p, q = self.place(a), self.place(b)
                if p and q and p[0] == q[0]: ca, cb = p[1], q[1]
                elif pred in ('eq', 'ne') and a != b and self.distinct(a, b): return ('bool', int(pred == 'ne'))
            if ca is not None and cb is not None:
                M = 1 << 64
                f = {'eq': ca == cb, 'ne': ca != cb, 'ult': ca % M < cb % M, 'ule': ca % M <= cb % M, 'ugt': ca % M > cb % M, 'uge': ca % M >= cb % M,
                     'slt': ca < cb, 'sle': ca <= cb, 'sgt': ca > cb, 'sge': ca >= cb}[pred]
                return ('bool', int(f))
            if a == b: return ('bool', int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
        flip = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle', 'ogt': 'olt', 'oge': 'ole'}
        if pred in flip: pred, a, b = flip[pred], b, a
        if pred == 'ugt' and i['op'] == 'fcmp': pred = 'fugt'
        if pred in ('eq', 'ne', 'oeq', 'une', 'one', 'ueq', 'uno', 'ord') and repr(b) < repr(a): a, b = b, a
        if pred == 'ne': return ('not', ('cmp', 'eq', a, b))
        return ('cmp', pred if i['op'] == 'icmp' else 'f' + pred, a, b)

    # ------------------------------------------------------------------- walking
    def is_event(self, i):
        if i['op'] == 'store': return True
        if i['op'] in ('call', 'invoke'):
            if i.get('intrinsic'): return i['mangled'].startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'llvm.lifetime'))
            n, t = callee_name(i['callee']) if 'callee' in i else ('<indirect>', ())
            return n not in PURE and n not in self.pure and not n.startswith('vpp_')
        return i['op'] in ('atomicrmw', 'cmpxchg')

    def loc(self, i):
        for f, l in i.get('loc', []):
            if '/repo/' in f or f.startswith('/repo'): return '%s:%d' % (f.replace('/repo/', ''), l)
        for f, l in i.get('loc', []):
            if 'source/fern' in f: return '%s:%d' % (f, l)
        return '?'

    def function_paths(self):
        return self.paths_from(0, None, {}, None)

    def paths_from(self, block, pred, env, loop):
        """All paths of region `loop` (None: the function), inner loops kept
        as single items.  A path is a dict: conds, items, end, env."""
        out = []
        region = self.loop_blocks[loop] if loop is not None else None
        stack = [(block, pred, dict(env), [], [], 0)]
        first = True
        steps = 0
        while stack:
            b, pr, env, conds, items, at = stack.pop()
            steps += 1
            if self.whole and steps > 50000: raise Unsupported('loops that do not end')
            if region is not None and not first and b == self.loops[loop]['header']:
                out.append(dict(conds=conds, items=items, end=('back',), env=env, pred=pr)); self.count(); continue
            if region is not None and b not in region:
                out.append(dict(conds=conds, items=items, end=('exit', b, pr), env=env, pred=pr)); self.count(); continue
            if b in self.header and self.header[b] != loop:
                # inner loop as one item
                lid = self.header[b]
                node = self.loop_node(lid, pr, env)
                items = items + [('loop', node)]
                for v, u, eenv in node['exits']:
                    stack.append((v, u, dict(eenv), list(conds) + ([('loopexit', node, u)] if len(node['exits']) > 1 else []), list(items), 0))
                first = False
                continue
            blk = self.blocks[b]
            if not at and not (first and loop is not None):
                # merge phis
                upd = {}
                for i in blk['insts']:
                    if i['op'] != 'phi': break
                    upd[i['id']] = self.phi_in(i, pr, env)
                env.update(upd)
            first = False
            term = None
            for n, i in enumerate(blk['insts']):
                if n < at or i['op'] == 'phi': continue
                if i['op'] in ('br', 'switch', 'ret', 'unreachable', 'resume'): term = i; break
                if i['op'] == 'invoke': term = i
                if i.get('intrinsic') and i['mangled'].startswith(('llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.donothing')): continue
                if self.whole and self.local(i, env): continue
                if self.is_event(i):
                    ev = self.event(i, env)
                    if ev is not None and ev[0] == 'call' and ev[1][0].startswith('vpo_') and ev[2] is not None:      # what it returns may differ each time
                        ev = ev[:2] + (ev[2] + (('nth', sum(x[0] == 'call' and x[1] == ev[1] for x in items)),),) + ev[3:]
                    if ev is not None: items.append(ev); self.n_events += 1
                    if i['ty'] != 'void': env[i['id']] = ('res', i['id'], ev[1][:3]) if False else self.result_of(i, ev, env)
                    if i.get('noreturn'):
                        term = dict(op='noreturn'); break
                elif i['ty'] != 'void':
                    e = self.eval(i, env)
                    if self.whole and i['ty'] == 'i1' and i['op'] == 'call' and e[0] == 'call':
                        # a predicate: either way
                        known = self.decide(e, conds)
                        for val in (1, 0):
                            if known is None or known == bool(val): stack.append((b, pr, dict(env) | {i['id']: ('bool', val)}, conds if known is not None else conds + [(e, bool(val))], list(items), n + 1))
                        term = dict(op='forked'); break
                    env[i['id']] = e
            op = term['op']
            if op == 'forked': pass
            elif op == 'ret':
                rv = self.operand(term['ops'][0], env) if term['ops'] else None
                out.append(dict(conds=conds, items=items, end=('ret', rv), env=env, pred=b)); self.count()
            elif op in ('unreachable', 'noreturn', 'resume'):
                out.append(dict(conds=conds, items=items, end=('unreachable',), env=env, pred=b)); self.count()
            elif op == 'invoke':
                stack.append((term['normal'], b, env, conds, items, 0))
            elif op == 'br':
                if len(term['succ']) == 1: stack.append((term['succ'][0], b, env, conds, items, 0))
                else:
                    c = self.operand(term['ops'][0], env)
                    known = self.decide(c, conds)
                    for val, s in ((1, term['succ'][0]), (0, term['succ'][1])):
                        if known is not None and known != bool(val): continue
                        nc = conds if known is not None else conds + [(c, bool(val))]
                        stack.append((s, b, dict(env), list(nc), list(items), 0))
            elif op == 'switch':
                x, rest = self.operand(term['ops'][0], env), list(conds)
                for v, s in term['cases']:
                    c = self.cmp(dict(op='icmp'), 'eq', x, Poly.const(int(v)))
                    known = self.decide(c, rest)
                    if known is not False: stack.append((s, b, dict(env), rest + [(c, True)] if known is None else list(rest), list(items), 0))
                    if known: break
                    if known is None: rest = rest + [(c, False)]
                else: stack.append((term['default'], b, dict(env), rest, list(items), 0))
            else: raise Unsupported('terminator ' + op)
        return out

    def count(self):
        self.n_paths += 1
        if self.n_paths > self.max_paths: raise Unsupported('too many paths')

    def result_of(self, i, ev, env):
        return ev[2] if ev is not None and len(ev) > 2 and ev[2] is not None else self.eval(i, env)

    def decide(self, c, conds):
        return eval_cond(c, lambda a: next((x[1] for x in conds if x[0] == a), None))

    def phi_in(self, i, pr, env):
        for b, o in i['in']:
            if b == pr: return self.operand(o, env)
        raise Unsupported('phi without matching edge')

    def event(self, i, env):
        if i['op'] == 'store':
            v, a = self.operand(i['ops'][0], env), self.operand(i['ops'][1], env)
            return ('store', (a, v, i['sty']), None, self.loc(i))
        if i.get('intrinsic'):
            n = i['mangled'].split('.')
            if i['id'] in self.once: self.note_copy(i, self.operand(i['ops'][1], env), i['ops'][2])
            return ('intr', ('.'.join(n[:3]),) + tuple(self.operand(x, env) for x in i['ops']), None, self.loc(i))
        if i['op'] in ('atomicrmw', 'cmpxchg'): return ('atomic', tuple(self.operand(x, env) for x in i['ops']), None, self.loc(i))
        n, t = callee_name(i['callee']) if 'callee' in i else ('<indirect>', ())
        a = tuple(self.operand(x, env) for x in i['ops'])
        if 'indirect' in i: a = (self.operand(i['indirect'], env),) + a
        return ('call', (n, t) + a, ('call', n, t) + a if i['ty'] != 'void' else None, self.loc(i))

    def loop_node(self, lid, pr, env):
        l = self.loops[lid]
        env = dict(env)
        hdr = self.blocks[l['header']]
        carried = {}
        for i in hdr['insts']:
            if i['op'] != 'phi': break
            init = self.phi_in_outer(i, pr, env, lid)
            val = None
            if 'scev' in i and i['scev']['k'] == 'rec' and i['scev']['l'] == lid and len(i['scev']['a']) == 2:
                try:
                    step = self.scev(i['scev']['a'][1], env)
                    if i['ty'] == 'ptr': val = self.offset(init, step * Poly.atom(('k', lid)))
                    else: val = self.poly(init) + step * Poly.atom(('k', lid))
                except Unsupported: val = None
            if val is None: val = ('phi', i['id'])
            carried[i['id']] = (init, val)
        for k, (a, v) in carried.items(): env[k] = v
        paths = self.paths_from(l['header'], None, env, lid)
        trips = btc = None
        header_only = len(l['exiting']) == 1
        try:
            if header_only:
                b = l['exiting'][0]['b']
                c = self.scev(l['btc'], env)
                btc = c
                if b == l['header'] or self.no_effect_before_exit(l, b): trips = c
                elif b in l['latches']: trips = c + Poly.const(1)
        except Unsupported: trips = btc = None
        if trips is None and header_only: trips = self.counted(paths, lid, l)
        # loop-carried values: name what each back edge passes on
        for p in paths:
            if p['end'][0] == 'back':
                p['carry'] = {}
                for i in hdr['insts']:
                    if i['op'] != 'phi': break
                    p['carry'][i['id']] = self.phi_in(i, p['pred'], p['env'])
        exits = []
        seen = {}
        for p in paths:
            if p['end'][0] == 'exit':
                key = (p['end'][1], p['end'][2])
                e = dict(env); e.update(p['env'])
                last = btc
                if last is None:
                    try: last = next(self.scev(x['count'], env) for x in l['exiting'] if x['b'] == key[1])
                    except (Unsupported, StopIteration): last = Poly.atom(('klast', lid))
                kk = ('k', lid)
                for q in list(e):
                    if (q not in env or q in carried) and contains(e[q], lambda t: t == kk):
                        e[q] = deep(e[q], lambda n: n.subst(lambda a: last if a == kk else None) if isinstance(n, Poly) else None)
                if key in seen:
                    # keep only values common to all paths to this exit
                    o = seen[key][2]
                    for k in list(o):
                        if o[k] != e.get(k): o[k] = ('loopval', lid, k)
                else:
                    seen[key] = (key[0], key[1], e); exits.append(seen[key])
        return dict(id=lid, trips=trips, paths=paths, exits=exits, carried=carried, header=l['header'], single=header_only,
                    loc=self.loop_loc(l))

    def counted(self, paths, lid, l):
        """Iterations of a loop that asks for the number of futures or blocks
        in every iteration."""
        if l['exiting'][0]['b'] != l['header']: return None
        for p in paths:
            if p['end'][0] != 'exit' or not p['conds']: continue
            c, v = p['conds'][-1][:2]
            while isinstance(c, tuple) and c[0] == 'not': c, v = c[1], not v
            if not (isinstance(c, tuple) and c[0] == 'cmp' and (c[1], v) in (('ult', False), ('eq', True))): return None
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                b = b.sole_atom() if isinstance(b, Poly) else b
                if a == Poly.atom(('k', lid)) and isinstance(b, tuple) and b[:1] == ('call',) and b[1] in ('vpx_future_count', 'vpx_ranges_count'): return Poly.atom(b)
                if c[1] == 'ult': break
        return None

    def no_effect_before_exit(self, l, b): return False

    def loop_loc(self, l):
        for i in self.blocks[l['header']]['insts']:
            x = self.loc(i)
            if x != '?': return x
        return '?'

    def phi_in_outer(self, i, pr, env, lid):
        for b, o in i['in']:
            if b == pr: return self.operand(o, env)
        for b, o in i['in']:
            if b not in self.loop_blocks[lid]: return self.operand(o, env)
        raise Unsupported('phi')


PURE = {'vpx_get', 'vpx_get0', 'vpx_size', 'vpx_size1', 'vpx_index', 'vpx_nd', 'vpx_nd0', 'vpx_dom', 'vpx_rng', 'vpx_future_at', 'vpx_pool_size',
        'vpx_ranges_data', 'vpx_ranges_count', 'vpx_pure', 'vpx_future_count'}


def eval_cond(c, val):
    """Truth value of a boolean expression; val(atom) -> True/False/None."""
    if isinstance(c, Poly):
        return bool(c.value()) if c.is_const() else val(c)
    k = c[0]
    if k == 'bool': return bool(c[1])
    v = val(c)
    if v is not None: return v
    if k == 'not':
        v = eval_cond(c[1], val); return None if v is None else not v
    if k in ('and', 'or', 'xor'):
        a, b = eval_cond(c[1], val), eval_cond(c[2], val)
        if k == 'and':
            if a is False or b is False: return False
            return True if a and b else None
        if k == 'or':
            if a or b: return True
            return False if a is False and b is False else None
        return None if a is None or b is None else a != b
    if k == 'ite':
        x = eval_cond(c[1], val)
        if x is True: return eval_cond(c[2], val)
        if x is False: return eval_cond(c[3], val)
        a, b = eval_cond(c[2], val), eval_cond(c[3], val)
        return a if a is not None and a == b else None
    if k == 'tobool': return eval_cond(c[1], val) if isinstance(c[1], tuple) else None
    if k == 'cast' and c[1] in ('zext', 'trunc', 'sext') and isinstance(c[3], tuple): return eval_cond(c[3], val)
    return None


def atoms_of(c, out):
    if isinstance(c, Poly): out.add(c); return
    if c[0] in ('not', 'and', 'or', 'xor', 'ite', 'tobool'):
        for x in c[1:]: atoms_of(x, out)
    elif c[0] != 'bool': out.add(c)


def load(path):
    return json.load(open(path))
