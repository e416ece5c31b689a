"""Comparison of two loop-free functions by their guarded outcomes.

Each function is read as a set of paths (conditions, events).  Conditions are
boolean combinations of atoms: comparisons between opaque terms and constants,
and opaque predicates.  All orderings of the terms (relative to each other and
to the constants, NaN included for floating point) and all truth values of the
predicates are enumerated; under each, both functions must show the same
events with the same value expressions."""
import itertools, math, re, struct, time
from ir import *
from cells import Mismatch, value_norm


def fl(e):
    """Float constant -> python float"""
    t = e[1]
    try: return float(t)
    except ValueError: pass
    s = t.lower()
    if 'nan' in s: return math.nan
    if 'inf' in s: return -math.inf if s.startswith('-') else math.inf
    raise Unsupported('float constant ' + t)


def strip(e):
    if isinstance(e, Poly) and e.sole_atom() is not None: return e.sole_atom()
    return e


def offsets(a, b):
    """Two numbers, or two addresses in one piece of storage, as numbers."""
    a, b = strip(a), strip(b)
    off = lambda x: isinstance(x, tuple) and x and x[0] == 'off'
    for base in [x[1] for x in (a, b) if off(x)]:
        p, q = (Poly.const(0) if x == base else x[2] if off(x) and x[1] == base else None for x in (a, b))
        if p is not None and q is not None: return p, q
    return tuple(x if isinstance(x, Poly) else Poly.atom(x) for x in (a, b))


# calls that take what they are given by reference to const
BY_CONST = re.compile(r'basic_format<.*::operator%$|std::map<.*::(find|count|contains|lower_bound|upper_bound)$')


FEED = re.compile(r'basic_format<.*::operator%$')


def bounds(n):
    """The end of a block of a partition is not before its begin."""
    if not (isinstance(n, tuple) and len(n) == 3 and n[0] == 'umax'): return None
    def at(x):
        x = strip(x)
        if not (isinstance(x, tuple) and x[0] == 'load' and x[2] == 'i64'): return None
        a = x[1] if x[1][0] == 'off' else ('off', x[1], Poly.const(0))
        return a[1:] if isinstance(a[1], tuple) and a[1][:2] == ('call', 'vpx_ranges_data') else None
    p, q = at(n[1]), at(n[2])
    if p is None or q is None or p[0] != q[0]: return None
    for x, (_, a), (_, b) in ((n[1], p, q), (n[2], q, p)):
        if a - b == Poly.const(8) and all(c % 16 == 0 for c in b.t.values()): return x
    return None


class Outcomes:
    def __init__(self, fn, args_effects=False, only=None):
        self.fn = fn; self.args_effects = args_effects; self.only = re.compile(only) if only else None
        self.types = {}
        self.paths = []
        self.names = {}         # loop counters and loop-carried values -> names that do not depend on the function
        self.left = {}          # loops the path left early -> their iterations
        self.made = {}          # local objects -> what they stand for
        self.values = {}        # loop-carried flags -> value after the loop
        for p in fn.function_paths():
            if p['end'][0] == 'unreachable' and not self.throws(p): continue
            conds, evs = self.path(p, (), True)
            self.paths.append((conds, evs))

    def path(self, p, at, top=False):
        loops = {}
        evs = []
        outer, self.left = self.left, dict(self.left)
        made, self.made = self.made, dict(self.made)
        if self.only: self.objects(p)
        for c in p['conds']:
            if c[0] == 'loopexit':
                cb, n = self.count_of(c[1])
                if cb is not None and c[2] != cb: self.left[('klast', c[1]['id'])] = n
        try: return self.path_(p, at, loops, evs, top)
        finally: self.left = outer; self.made = made

    def objects(self, p):
        """Local objects that one call creates stand for what that call was
        given: a string that is a copy of another is that other."""
        by = {}
        whole = lambda x: isinstance(x, tuple) and x[:1] == ('alloca',)
        local = lambda x: whole(x) or isinstance(x, tuple) and x[:1] == ('off',) and whole(x[1])       # an object or a member of one
        self.members(p, whole, local)
        for i in p['items']:
            if i[0] == 'call' and i[2] is None and len(i[1]) > 2 and local(i[1][2]) and '~' not in i[1][0] and not i[1][0].startswith('vp_'):
                by.setdefault(i[1][2], []).append(i[1])
            elif i[0] == 'call' and i[1][0].endswith('::operator=') and local(i[1][2]): by.setdefault(i[1][2], []).append(i[1])
        for o, calls in by.items():
            if len(calls) == 2 and len(calls[0]) == 3 and calls[1][0].endswith('::operator='): calls = calls[1:]
            if len(calls) != 1: continue
            n, args = calls[0][0], [a for a in calls[0][3:] if not (local(a) and a not in by)]
            if n.endswith(('::basic_string', '::operator=')) and len(args) == 1: self.made[o] = args[0]
            elif n.endswith('::basic_string'): self.made[o] = ('string',) + tuple(args)
            else: self.made[o] = ('made', n, calls[0][1]) + tuple(args)
        fed = {}            # what is fed into each local formatter, in order
        for i in p['items']:
            if i[0] == 'call' and FEED.search(i[1][0]) and len(i[1]) == 4:
                o = i[1][2]
                while isinstance(o, tuple) and o[:1] == ('call',) and FEED.search(o[1]): o = o[3]
                if whole(o): fed.setdefault(o, []).append(i[1][3])
        for o, xs in fed.items():
            if o in self.made: self.made[o] = ('formatted', self.made[o]) + tuple(xs)
        def others(x):      # the remaining ones are told apart by the order in which they are used
            if x in self.made if isinstance(x, tuple) else False: return
            if whole(x):
                if x not in self.made: self.made[x] = ('object', sum(v[:1] == ('object',) for v in self.made.values() if isinstance(v, tuple)))
            elif isinstance(x, Poly):
                for y in x.atoms(): others(y)
            elif isinstance(x, tuple):
                for y in x: others(y)
        for i in p['items']:
            if i[0] == 'call' and self.only.search(i[1][0]): others(i[1][2:])

    def members(self, p, whole, local):
        """A plain member that is stored once in a local object that no call
        is given as a whole has that value wherever it is read."""
        given, stored, formatted, elsewhere = set(), {}, set(), set()
        for i in p['items']:
            if i[0] in ('call', 'intr'): given.update(x for x in i[1][2:] if whole(x)) if '~' not in i[1][0] and not i[1][0].startswith('llvm.lifetime') else None
            if i[0] == 'call': (formatted if BY_CONST.search(i[1][0]) else elsewhere).update(x for x in i[1][2:] if whole(x))
            elif i[0] == 'store' and local(i[1][0]): stored.setdefault(i[1][0], []).append((i[1][1], i[1][2]))
        for a, vs in stored.items():
            if len(vs) != 1: continue
            if whole(a):        # a value handed to a formatter by reference
                if a in formatted and a not in elsewhere: self.made[a] = ('at', vs[0][0])
            elif a[1] not in given: self.made[('load', a, vs[0][1])] = vs[0][0]

    def object(self, n):
        if isinstance(n, tuple) and n in self.made: return deep(self.made[n], self.object)
        if isinstance(n, tuple) and n[:1] == ('call',) and re.search(r'::basic_string<.*>::(c_str|data)$', n[1]): return deep(n[3], self.object)
        if isinstance(n, tuple) and n[:1] == ('call',) and FEED.search(n[1]) and len(n) == 5: return deep(n[3], self.object)
        if isinstance(n, tuple) and n[:1] == ('call',) and len(n) == 4 and self.made.get(n[3], n[3]) == ('string',) and n[1].endswith('::basic_string<char, std::char_traits<char>, std::allocator<char>>::empty'): return ('bool', 1)
        return None

    def path_(self, p, at, loops, evs, top):
        for i in p['items']:
            if i[0] == 'loop':
                name = at + (len(loops),); loops[i[1]['id']] = (name, i[1])
                self.names[('klast', i[1]['id'])] = ('klast', name)
                e = self.loop(i[1], name)
            else: e = self.event(i)
            if e is not None: evs.append(e)
        conds = []
        for c in p['conds']:
            if c[0] == 'loopexit':
                name = loops[c[1]['id']][0]
                if self.counting(c[1]) is None: continue
                conds.append((('early', name), c[2] != self.counting(c[1])))
            else: conds.append((self.norm(c[0]), c[1]))
        if top and p['end'][0] != 'unreachable':
            r = p['end'][1]
            evs.append(('ret', self.norm(r) if r is not None else None, '?'))
        return conds, evs

    def throws(self, p):
        i = p['items'][-1] if p['items'] else None
        return i is not None and i[0] == 'call' and i[1][0] == '__cxa_throw'

    def counting(self, node):
        """The block that leaves the loop after a known number of iterations."""
        return self.count_of(node)[0]

    def count_of(self, node):
        """(block, iterations before it leaves, whether the iterations are
        counted after the body)"""
        fn = self.fn; l = fn.loops[node['id']]
        env = self.env_of(node)
        for x in l['exiting']:
            try: return x['b'], fn.scev(x['count'], env)
            except Unsupported: pass
        # The bound is read again in every iteration: storage is assumed not to
        # overlap the objects that hold the sizes.
        kk = ('k', node['id'])
        for p in node['paths']:
            if p['end'][0] != 'exit' or not p['conds']: continue
            c, v = p['conds'][-1]
            while isinstance(c, tuple) and c[0] == 'not': c, v = c[1], not v
            if not (isinstance(c, tuple) and c[0] == 'cmp'): continue
            for a, b, ok in ((c[2], c[3], (c[1], v) in (('ult', False), ('slt', False), ('eq', True))), (c[3], c[2], (c[1], v) in (('ule', True), ('sle', True), ('eq', True)))):
                if not ok: continue
                a, b = offsets(a, b)
                s = a.coeff(kk)
                if s.is_const() and 0 < s.value() < 1 << 32 and not contains(b, lambda t: t == kk or (isinstance(t, tuple) and t[:1] == ('phi',))):
                    n = b - (a - Poly.atom(kk) * s)
                    if all(v % s.value() == 0 for v in n.t.values()) and not contains(n, lambda t: t == kk):
                        return p['end'][2], Poly({m: v // s.value() for m, v in n.t.items()})
        if len(l['exiting']) != 1: raise Unsupported('loop without an iteration count')
        return None, ('forever',)

    def loop(self, node, name):
        """('loop', iterations, bodies, initial values, loc): one generic
        iteration; k and the carried values are symbols."""
        fn = self.fn; l = fn.loops[node['id']]
        if len(l['exiting']) > 2: raise Unsupported('loop with more than two exits')
        cb, trips = self.count_of(node)
        if cb is not None and cb in l['latches'] and cb != l['header']: trips = trips + Poly.const(1)
        self.names[('k', node['id'])] = ('k', name)
        free = [(k, init) for k, (init, v) in node['carried'].items() if v == ('phi', k)]
        if len(free) > 1: free.sort(key=lambda f: self.skeleton(f, node))
        for j, (k, init) in enumerate(free): self.names[('phi', k)] = ('carried', name, j)
        count = (None,) if cb is None else None
        for p in node['paths']:
            if p['end'][0] == 'exit' and p['end'][2] == cb and p['conds']: count = p['conds'][-1]
        if count is None: raise Unsupported('loop without a counting exit')
        bodies = []
        for p in node['paths']:
            end = p['end'][0]
            if end == 'unreachable': continue
            if end == 'exit' and p['end'][2] == cb and cb is not None:
                if not (cb in l['latches'] and cb != l['header']): continue
                end = 'back'
            q = dict(p, conds=[c for c in p['conds'] if c[0] != count[0]])
            conds, evs = self.path(q, name)
            carry = tuple(self.norm(p['carry'][k]) for k, _ in free) if 'carry' in p else None
            b = (tuple(conds), tuple(evs), 'back' if end == 'back' else 'early', carry)
            if not any(b[:3] == o[:3] and (carry is None or o[3] is None) for o in bodies): bodies.append(b)
        for b in list(bodies):      # the path through a rotated exit carries what the back edge carries
            if b[3] is None and b[2] == 'back' and free and any(o[:3] == b[:3] and o[3] is not None for o in bodies): bodies.remove(b)
        trips = self.norm(trips)
        if len(free) == 1 and all(not b[1] for b in bodies) and all(b[2] == 'back' and b[3] is not None for b in bodies):
            r = self.flag(name, free[0], bodies)
            if r is not None: return ('loop', trips, r, (), node['loc'])
        if all(not b[1] for b in bodies) and not free and all(b[2] == 'back' for b in bodies): return None
        if not free:
            r = self.block_store(node, name, bodies, trips)
            if r is not None: return r
        return ('loop', trips, tuple(bodies), tuple(self.norm(i) for _, i in free), node['loc'])

    def skeleton(self, f, node):
        """What a loop-carried value starts with and becomes, regardless of
        the names of other values: puts them in an order that does not depend
        on that of their declaration."""
        k, init = f
        def anon(n):
            if isinstance(n, Poly): return None
            if n == ('phi', k): return ('self',)
            if isinstance(n, tuple) and n[:1] in (('phi',), ('k',), ('klast',), ('loopval',)): return ('other',)
            return None
        def text(e):
            def through(n):
                if isinstance(n, Poly): return n.subst(lambda a: Poly.atom(deep(a, through)) if deep(a, through) != a else None)
                return anon(n)
            return ''.join(sorted(show(deep(e, through))))
        return (text(init), sorted({text(p['carry'][k]) for p in node['paths'] if 'carry' in p}))

    def block_store(self, node, name, bodies, trips):
        """A loop that stores one byte value in, or copies, adjacent cells is a
        memset or a memmove of the whole."""
        if len(bodies) != 1 or bodies[0][0] or bodies[0][2] != 'back' or len(bodies[0][1]) != 1 or bodies[0][1][0][0] != 'store': return None
        ty = next((i[1][2] for p in node['paths'] for i in p['items'] if i[0] == 'store'), None)
        size = {'float': 4, 'double': 8}.get(ty) or WIDTHS.get(ty, 0) // 8
        k = ('k', name)
        def place(a):
            if not (isinstance(a, tuple) and a[0] == 'off'): return None
            c = a[2].coeff(k) if isinstance(a[2], Poly) else None
            if c is None or c != Poly.const(size) or contains(a[1], lambda t: t == k): return None
            r = a[2] - Poly.atom(k) * c
            return None if contains(r, lambda t: t == k) else (a[1] if r == Poly.const(0) else ('off', a[1], r))
        e = bodies[0][1][0]
        if not size: return None
        at = place(e[1]); v = strip(e[2][0])
        if at is None or not isinstance(trips, Poly): return None
        n = trips * Poly.const(size)
        if isinstance(v, tuple) and v and v[0] == 'load' and v[2] == ty:
            frm = place(v[1])
            if frm is not None: return ('intr', 'block.move', (at, frm, n), e[-1])
        if contains(v, lambda t: t == k): return None
        if size == 1: return ('intr', 'block.set', (at, v if not (isinstance(v, tuple) and v[0] == 'bool') else Poly.const(v[1]), n), e[-1])
        if v == Poly.const(0) or (isinstance(v, tuple) and v[0] == 'f' and v[1] in ('0', '0.0', '0.000000e+00')): return ('intr', 'block.set', (at, Poly.const(0), n), e[-1])
        return None

    def flag(self, name, free, bodies):
        """A loop that only raises a flag is one that leaves early."""
        k, init = free
        sym = ('carried', name, 0)
        if init not in (('bool', 0), Poly.const(0)): return None
        def put(e, v): return deep(e, lambda n: v if n == sym else (Poly.const(v[1]) if isinstance(n, Poly) and n.sole_atom() == sym else None))
        out = []
        for conds, evs, end, (c,) in bodies:
            c0, c1 = put(c, ('bool', 0)), put(c, ('bool', 1))
            conds0 = tuple((put(x, ('bool', 0)), v) for x, v in conds)
            if any(x[0] == 'bool' and bool(x[1]) != v for x, v in conds0): continue
            t1 = eval_cond(c1, lambda a: None) if not isinstance(c1, Poly) else (bool(c1.value()) if c1.is_const() else None)
            if t1 is not True and not any(contains(x, lambda n: n == sym) for x, v in conds): return None
            if not isinstance(c0, tuple): c0 = ('bool', c0.value()) if c0.is_const() else None
            if c0 is None: return None
            conds0 = tuple((x, v) for x, v in conds0 if x[0] != 'bool')
            if c0[0] == 'bool': out.append((conds0, (), 'early' if c0[1] else 'back', ()))
            else:
                out.append((conds0 + ((c0, True),), (), 'early', ())); out.append((conds0 + ((c0, False),), (), 'back', ()))
        self.values[sym] = ('early', name)
        return tuple(out)

    def env_of(self, node):
        for p in node['paths']:
            if p['end'][0] == 'back': return p['env']
        return node['paths'][0]['env']

    def event(self, i):
        kind, a, _, loc = i
        if self.only and not (kind == 'call' and self.only.search(a[0])): return None
        if kind == 'call':
            if a[0] == '__cxa_throw': return ('call', a[0], a[1]) + (tuple(self.norm(x) for x in a[3:4]), loc)
            return ('call', a[0], a[1]) + (tuple(self.norm(x) for x in a[2:]), loc)
        if kind == 'store':
            addr = a[0]
            n = self.norm(('load', addr, a[2]))
            if isinstance(n, tuple) and n[0] == 'in': return ('put', n, (self.norm(a[1]),), loc)
            b = addr[1] if isinstance(addr, tuple) and addr[0] == 'off' else addr
            if isinstance(b, tuple) and b[0] == 'alloca': return None
            if isinstance(b, tuple) and b[0] == 'arg' and not self.args_effects: return None
            return ('store', self.norm(addr), (self.norm(a[1]),), loc)
        if kind == 'intr':
            if a[0].startswith('llvm.lifetime'): return None
            if a[0].startswith('llvm.memset'): return ('intr', 'block.set', tuple(self.norm(x) for x in a[1:4]), loc)
            if a[0].startswith(('llvm.memcpy', 'llvm.memmove')): return ('intr', 'block.move', tuple(self.norm(x) for x in a[1:4]), loc)
            return ('intr', a[0], tuple(self.norm(x) for x in a[1:]), loc)
        raise Unsupported(kind)

    def norm(self, e):
        if self.made or self.only: e = deep(e, self.object)
        e = deep(e, self.positions)
        e = deep(e, bounds)
        self.scan(e)
        e = value_norm(e)
        if self.names: e = deep(e, self.rename)
        return e

    def positions(self, n):
        """Comparisons of positions in one piece of storage are comparisons of
        offsets; after an early exit the last index is below the count."""
        if not (isinstance(n, tuple) and n and n[0] == 'cmp' and n[1] in ('eq', 'ult', 'ule', 'slt', 'sle')): return None
        def split(x):
            x = strip(x)
            return (x[1], x[2]) if isinstance(x, tuple) and x and x[0] == 'off' else (x, Poly.const(0))
        (p, a), (q, b) = split(n[2]), split(n[3])
        if p == q and n[1] == 'eq' and not isinstance(p, Poly): pass
        elif isinstance(n[2], Poly) and isinstance(n[3], Poly): a, b = n[2], n[3]
        else: return None
        if a == b: return ('bool', int(n[1] in ('eq', 'ule', 'sle')))
        for k, trips in self.left.items():
            d = Poly.atom(k) - trips
            for x, y, below in ((a, b, 1), (b, a, 0)):
                c = (x - y).coeff(k)
                if c.is_const() and 0 < c.value() < 1 << 32 and (x - y) == d * c: return ('bool', 0 if n[1] == 'eq' else below)
        return ('cmp', 'eq', a, b) if n[1] == 'eq' and p == q and not isinstance(p, Poly) else None

    def rename(self, n):
        if isinstance(n, Poly):
            if not any(a in self.names or a in self.values for a in n.atoms()): return None
            return n.subst(lambda a: Poly.atom(self.rename(a)) if a in self.names or a in self.values else None)
        x = self.names.get(n) if isinstance(n, tuple) else None
        if x is not None: return self.values.get(x, x)
        return self.values.get(n) if isinstance(n, tuple) else None

    def scan(self, e):
        """Record the types of the leaves."""
        if isinstance(e, Poly):
            for a in e.atoms(): self.scan(a)
        elif isinstance(e, tuple) and e:
            if e[0] == 'load':
                c = e[1]
                boolean = isinstance(c, tuple) and c[0] == 'call' and c[1] in ('vpx_get', 'vpx_get0') and c[2][1] == 'bool'
                n = value_norm(e)
                if self.names: n = deep(n, self.rename)
                if self.types.get(n) != 'bool': self.types[n] = 'bool' if boolean or c in self.fn.booleans else e[2]
            elif e[0] == 'arg' and len(e) == 2: self.types[e] = self.fn.j['args'][e[1]]['ty']
            for x in e:
                if isinstance(x, (tuple, Poly)): self.scan(x)


def collect(c, out):
    """Atoms of a boolean expression."""
    if isinstance(c, Poly): out.append(c); return
    if not isinstance(c, tuple): return
    k = c[0]
    if k in ('not', 'and', 'or', 'xor', 'tobool'):
        for x in c[1:]: collect(x, out)
    elif k == 'ite':
        for x in c[1:]: collect(x, out)
        inner(c, out)
    elif k == 'bool': pass
    else: out.append(c); inner(c, out)


def inner(e, out):
    """Conditional values nested inside an expression contribute their
    conditions."""
    if isinstance(e, Poly):
        for a in e.atoms(): inner(a, out)
    elif isinstance(e, tuple):
        if e and e[0] == 'ite': collect(e[1], out); inner(e[2], out); inner(e[3], out)
        elif e and e[0] in ('cmp', 'not', 'and', 'or', 'xor'): 
            if e[0] == 'cmp':
                if e not in out: out.append(e)
                for x in e[2:]: inner(x, out)
            else: collect(e, out)
        elif e and is_minmax(e):
            a, b = e[3], e[4]
            out.append(('cmp', 'slt' if 'smax' in e[1] or 'smin' in e[1] else 'ult', a, b)); inner(a, out); inner(b, out)
        else:
            for x in e:
                if isinstance(x, (tuple, Poly)): inner(x, out)


def is_minmax(e): return e[0] == 'call' and isinstance(e[1], str) and re.match(r'llvm\.(s|u)(max|min)\.', e[1]) is not None


WIDTHS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i1': 1}
NUMERIC = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'}
INT_OPS = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'}
FP_OPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'}
FP_CALLS = {'llvm.fabs': abs, 'llvm.floor': math.floor, 'llvm.ceil': math.ceil, 'llvm.trunc': math.trunc}


def fp_call(e):
    if e[0] == 'call' and isinstance(e[1], str):
        for k in FP_CALLS:
            if e[1].startswith(k + '.'): return k
        if e[1] in LIBM: return e[1]
    return None


LIBM = {'modf': lambda x: 0.0 if math.isinf(x) else math.modf(x)[0], 'modff': lambda x: 0.0 if math.isinf(x) else math.modf(x)[0],
        'trunc': math.trunc, 'truncf': math.trunc, 'floor': math.floor, 'floorf': math.floor, 'ceil': math.ceil, 'ceilf': math.ceil}


def is_class(e): return e[0] == 'call' and isinstance(e[1], str) and e[1].startswith('llvm.is.fpclass')


def fpclass(x):
    if x != x: return 0x3
    if math.isinf(x): return 0x4 if x < 0 else 0x200
    if x == 0: return 0x20 if math.copysign(1, x) < 0 else 0x40
    return 0x8 if x < 0 else 0x100


OVF = re.compile(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)')


def is_ovf(e): return e[0] == 'extract' and isinstance(e[1], tuple) and e[1][0] == 'call' and isinstance(e[1][1], str) and OVF.match(e[1][1]) is not None


def overflow(e, num):
    """(wrapped result, overflow flag) of a checked operation"""
    m = OVF.match(e[1][1]); w = int(m.group(3))
    a, b = num(e[1][3]), num(e[1][4])
    if a is None or b is None: return None
    if m.group(1) == 'u': a, b = a % (1 << w), b % (1 << w)
    r = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(2)]
    lo, hi = (0, 1 << w) if m.group(1) == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
    return wrap(r, w), not lo <= r < hi


def is_ext(e): return e[0] in ('umax', 'umin', 'smax', 'smin') and len(e) > 1


def is_ctpop(e): return e[0] == 'call' and isinstance(e[1], str) and e[1].startswith('llvm.ctpop.')


def is_abs(e): return e[0] == 'call' and isinstance(e[1], str) and e[1].startswith('llvm.abs.')


def compound(e):
    """Is e an expression the evaluator computes from its operands?"""
    return bool(e) and (is_ext(e) or e[0] in ('ite', 'f', 'bool', 'cmp', 'not', 'and', 'or', 'xor', 'tobool', 'udiv') or (e[0] == 'cast' and e[1] in NUMERIC) or (e[0] == 'op' and e[1] in INT_OPS | FP_OPS) or is_ovf(e) or is_minmax(e) or is_abs(e) or is_ctpop(e) or is_class(e) or fp_call(e) is not None)


def wrap(v, w):
    v %= 1 << w
    return v - (1 << w) if v >= 1 << (w - 1) else v


def f32(x):
    if x != x or math.isinf(x): return x
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)


def gather(conds, evs, atoms):
    for c, v in conds: collect(c, atoms)
    for e in evs:
        if e[0] == 'loop':
            inner(e[1], atoms)
            for conds2, evs2, end, carry in e[2]:
                gather(conds2, evs2, atoms)
                for x in carry or (): inner(x, atoms)
            continue
        for x in e:
            if isinstance(x, (tuple, Poly)): inner(x, atoms)


class Domain:
    """Sample points standing for every ordering of the compared terms."""

    def __init__(self, fns, limit=300000, cases=None, points=None):
        atoms = []
        self.points, self.fns, self.inside = points, fns, {}
        self.types = {}
        for f in fns:
            self.types.update({k: t for k, t in f.types.items() if self.types.get(k) != 'bool'})
            for conds, evs in f.paths: gather(conds, evs, atoms)
        self.cases = cases
        self.leaves = {}; self.preds = []; self.ic = set(); self.fc = set()
        for a in atoms:
            a = strip(a)
            if isinstance(a, tuple) and a[0] == 'cmp':
                for x in a[2:]: self.term(x, 'f' if a[1].startswith('f') else 'i')
            elif isinstance(a, tuple) and (a[0] in ('cast', 'op') and compound(a) or is_class(a) or is_ovf(a)): self.term(a, 'i')
            elif a not in self.preds: self.preds.append(a)
        self.ints = [l for l, k in self.leaves.items() if k == 'i']
        self.floats = [l for l, k in self.leaves.items() if k == 'f']
        self.preds = [p for p in self.preds if p not in self.leaves]
        self.unsigned = any(isinstance(a, tuple) and a[0] == 'cmp' and a[1].startswith('u') for a in map(strip, atoms))
        if cases is not None: self.size = 2 ** len(self.preds); return
        if points is not None: return
        for rich in (True, False):
            self.pts = {l: self.ipoints(l, rich) for l in self.ints}
            size = 1
            for l in self.ints: size *= len(self.pts[l])
            fp = self.fpoints()
            size *= len(fp) ** len(self.floats) * 2 ** len(self.preds)
            if size <= (limit if not rich else limit // 10): break
        self.groups = None
        if size > limit: self.decompose(atoms, limit); return
        for l in self.floats: self.pts[l] = fp if self.types.get(l) != 'float' else list(dict.fromkeys(f32(x) for x in fp))
        self.size = size

    def decompose(self, atoms, limit):
        """Terms that no comparison relates are independent: of each group of
        related terms, one or two points per outcome of its comparisons."""
        many = Unsupported('too many orderings (%d int terms, %d float terms, %d predicates)' % (len(self.ints), len(self.floats), len(self.preds)))
        group = {l: l for l in self.ints + self.floats}
        def top(l):
            while group[l] != l: l = group[l]
            return l
        uses = {}; consts = {}
        leaves, preds, ic, fc = self.leaves, self.preds, self.ic, self.fc
        for a in map(strip, atoms):
            self.leaves, self.preds, self.ic, self.fc = {}, [], set(), set()
            if isinstance(a, tuple) and a[0] == 'cmp':
                for x in a[2:]: self.term(x, 'f' if a[1].startswith('f') else 'i')
            elif isinstance(a, tuple) and (a[0] in ('cast', 'op') and compound(a) or is_class(a) or is_ovf(a)): self.term(a, 'i')
            ls, mine = list(self.leaves), (self.ic, self.fc)
            inside = self.preds + [x for x in self.conditions(a)]
            if not ls: continue
            if inside: raise many
            consts[a] = mine
            for l in ls[1:]: group[top(l)] = top(ls[0])
            uses.setdefault(ls[0], []).append(a)
        self.leaves, self.preds, self.ic, self.fc = leaves, preds, ic, fc
        sets = {}
        for l in group: sets.setdefault(top(l), []).append(l)
        ints, floats = self.ints, self.floats
        out = []; self.size = 2 ** len(self.preds); taken = set()
        for ls in sets.values():
            as_ = [a for l in ls for a in uses.get(l, ())]
            self.ints, self.floats = [l for l in ints if l in ls], [l for l in floats if l in ls]
            self.ic, self.fc = (set().union(*(consts[a][j] for a in as_)) for j in (0, 1))
            fp = self.fpoints() if self.floats else []
            pts = {l: self.ipoints(l, False) if l in self.ints else fp if self.types.get(l) != 'float' else list(dict.fromkeys(f32(x) for x in fp)) for l in ls}
            n = 1
            for l in ls: n *= len(pts[l])
            if n > limit: raise many
            found = {}
            for iv in itertools.product(*[pts[l] for l in ls]):
                A = Assign(dict(zip(ls, iv)), {})
                sig = tuple(A.atom(a) for a in as_)
                # prefer values no other term has
                rank = sum(v in taken for v in iv) + len(iv) - len(set(iv))
                best = found.setdefault(sig, [])
                best.append((rank, len(best), A.v)); best.sort(key=lambda x: x[:2]); del best[2:]
            for best in found.values(): taken |= {v for _, _, d in best for v in d.values()}
            out.append([d for best in found.values() for _, _, d in best]); self.size *= len(out[-1])
            if self.size > limit: raise many
        self.ints, self.floats, self.ic, self.fc = ints, floats, ic, fc
        self.groups = out

    def conditions(self, a):
        out = []
        for x in a[2:] if a[0] == 'cmp' else (a,): inner(x, out)
        return [x for x in out if x != a]

    def width(self, l): return WIDTHS.get(self.types.get(l), 64)

    def ipoints(self, l, rich):
        n = max(1, len(self.ints)); w = self.width(l)
        if self.types.get(l) == 'bool': return [0, 1]
        pts = set()
        for c in self.ic | {0}:
            for d in range(-n, n + 1):
                pts.add(c + d); pts.add(d - c)
        if rich:
            for c in (1 << (w - 1), 1 << w):
                for d in range(-n, n + 1): pts.add(c + d); pts.add(-c + d)
        for d in range(n):
            big = (1 << (w - 2)) + 3 if w < 32 else 1000003
            pts.add(d + big)
            if not self.unsigned or rich: pts.add(-d - big)
        return sorted({wrap(p, w) for p in pts})

    def fpoints(self):
        m = max(1, len(self.floats))
        cs = sorted({c for c in self.fc if c == c and not math.isinf(c)})
        fp = set(cs) | {math.inf, -math.inf}
        edges = [-math.inf] + cs + [math.inf]
        for lo, hi in zip(edges, edges[1:]):
            for k in range(m):
                if math.isinf(lo) and math.isinf(hi): fp |= {float(k), k + .5}
                elif math.isinf(lo):
                    x = hi * 2 - 1 - k if hi < 0 else hi - 1 - k
                    fp |= {x, x - .5}
                elif math.isinf(hi):
                    x = lo * 2 + 1 + k if lo > 0 else lo + 1 + k
                    fp |= {x, x + .5}
                else: fp.add(lo + (hi - lo) * (k + 1) / (m + 1))
        if any(c == 0 for c in cs): fp.add(-0.0)
        return sorted({x for x in fp if not math.isinf(x)}) + [-math.inf, math.inf, math.nan]

    def term(self, x, kind):
        if isinstance(x, Poly):
            for m, c in x.t.items():
                if not m: self.ic.add(c)
                for a in m: self.term(a, 'i')
            return
        if not isinstance(x, tuple): raise Unsupported('compared term')
        if x[0] == 'early':
            if x not in self.preds: self.preds.append(x)
            return
        if not compound(x):
            self.leaves.setdefault(x, kind); return
        k = x[0]
        if k == 'f': self.fc.add(fl(x))
        elif k == 'ite': self.term(x[2], kind); self.term(x[3], kind)
        elif k == 'cast':
            if x[4] != 'i1': self.term(x[3], 'f' if x[4] in ('float', 'double') or x[4].startswith('x86') else 'i')
        elif k == 'op':
            for y in x[3:]: self.term(y, 'f' if x[1] in FP_OPS else 'i')
        elif k == 'extract':
            for y in x[1][3:]: self.term(y, 'i')
        elif k == 'udiv' or is_ext(x):
            for y in x[1:]: self.term(y, 'i')
        elif k == 'call':
            for y in x[3:4] if is_abs(x) or fp_call(x) or is_class(x) else x[3:]: self.term(y, 'f' if fp_call(x) or is_class(x) else 'i')

    def preds_of(self, c):
        if c not in self.inside:
            out = []
            collect(c, out)
            self.inside[c] = [p for p in map(strip, out) if p in self.preds]
        return self.inside[c]

    def settled(self, A, c): return None if self.preds_of(c) else A.truth(c)

    def assignments(self):
        if self.points is not None:
            for d in self.points(list(self.leaves)):
                # conditions that are spelled differently can be the same one,
                # those of other paths and of loops not entered do not matter
                A = Assign(d, {})
                needed = set()
                def see(conds, evs):
                    for c, v in conds: needed.update(x for x in self.preds_of(c))
                    for e in evs:
                        if e[0] == 'loop' and A.num(e[1]) != 0 and A.reduce(e[1]) != Poly.const(0):
                            for c2, e2, _, _ in e[2]: see(c2, e2)
                for f in self.fns:
                    for conds, evs in f.paths:
                        if all(self.settled(A, c) in (v, None) for c, v in conds): see(conds, evs)
                classes = {}
                for p in self.preds:
                    if p in needed: classes.setdefault(A.reduce(p), []).append(p)
                rest = {p: False for p in self.preds if p not in needed}
                for pv in itertools.product((False, True), repeat=len(classes)):
                    yield Assign(d, rest | {p: v for ps, v in zip(classes.values(), pv) for p in ps})
            return
        if self.cases is not None:
            for d in self.cases():
                for l in self.leaves:
                    if l not in d: raise Unsupported('compared term %s is not a parameter' % show(l))
                for pv in itertools.product((False, True), repeat=len(self.preds)):
                    yield Assign(d, dict(zip(self.preds, pv)))
            return
        if self.groups is not None:
            for ds in spread(self.groups + [(False, True)] * len(self.preds)):
                yield Assign({k: v for x in ds[:len(self.groups)] for k, v in x.items()}, dict(zip(self.preds, ds[len(self.groups):])))
            return
        ls = self.ints + self.floats
        for iv in spread([self.pts[l] for l in ls] + [(False, True)] * len(self.preds)):
            yield Assign(dict(zip(ls, iv)), dict(zip(self.preds, iv[len(ls):])))


def spread(axes):
    """The product of these, all of it, far apart ones after each other."""
    axes = [list(a) for a in axes]
    n = math.prod(len(a) for a in axes)
    step = max(1, int(n * 0.6180339887))
    while math.gcd(step, n) > 1: step += 1
    k = 0
    for _ in range(n):
        x, out = k, []
        for a in axes: out.append(a[x % len(a)]); x //= len(a)
        yield tuple(out)
        k = (k + step) % n


class Assign:
    def __init__(self, v, p): self.v, self.p, self.memo = v, p, {}

    def text(self):
        out = ['%s=%s' % (show(k), v) for d in (self.v, self.p) for k, v in d.items()]
        return ', '.join(out)

    def num(self, x):
        """Value of an expression (signed representative of its width), None
        when it depends on anything opaque."""
        if x in self.memo: return self.memo[x]
        r = self.memo[x] = self._num(x)
        return r

    def _num(self, x):
        if isinstance(x, Poly):
            r = 0
            for m, c in x.t.items():
                t = c
                for a in m:
                    v = self.num(a)
                    if v is None or isinstance(v, float): return v if x.sole_atom() is not None else None
                    t *= v
                r += t
            return wrap(r, 64)
        if not isinstance(x, tuple) or not x: return None
        if x in self.v: return self.v[x]
        k = x[0]
        if k == 'early': return None if x not in self.p else int(self.p[x])
        if k == 'f': return fl(x)
        if k == 'bool': return x[1]
        if k == 'ite':
            b = self.truth(x[1])
            return None if b is None else self.num(x[2] if b else x[3])
        if k == 'cast':
            op, ty, a, sty = x[1:5]
            if op not in NUMERIC: return None
            if sty == 'i1':
                b = self.truth(a)
                if b is None: return None
                v = -int(b) if op in ('sext', 'sitofp') else int(b)
            else: v = self.num(a)
            if v is None: return None
            sw, dw = WIDTHS.get(sty), WIDTHS.get(ty)
            if op in ('zext', 'uitofp') and sw: v %= 1 << sw
            if op in ('zext', 'sext', 'trunc'): return wrap(v, dw) if dw and not isinstance(v, float) else None
            if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
                v = float(v)
                return f32(v) if ty == 'float' else v if ty == 'double' else None
            if op == 'fptosi':      # what the machine gives out of range: the smallest value of the register
                mw = max(dw, 32)
                ok = not (math.isnan(v) or math.isinf(v)) and -(1 << (mw - 1)) <= int(v) < 1 << (mw - 1)
                return wrap(int(v) if ok else -(1 << (mw - 1)), dw)
            if math.isnan(v) or math.isinf(v): return None
            v = int(v)
            return wrap(v, dw) if 0 <= v < 1 << dw else None
        if k == 'op':
            vs = [self.num(a) for a in x[3:]]
            if any(v is None for v in vs): return None
            if x[1] in FP_OPS:
                try:
                    if x[1] == 'fneg': return -vs[0]
                    a, b = map(float, vs)
                    if x[1] == 'fdiv' and b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                    r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[x[1]]()
                except OverflowError: return None
                return f32(r) if x[2] == 'float' else r if x[2] == 'double' else None
            if x[1] not in INT_OPS or any(isinstance(v, float) for v in vs): return None
            a, b = vs; w = x[2]; ua, ub = a % (1 << w), b % (1 << w)
            if x[1] in ('shl', 'lshr', 'ashr') and ub >= w: return None
            if x[1] in ('udiv', 'sdiv', 'urem', 'srem') and b == 0: return None
            q = lambda: (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            return wrap({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'shl': lambda: a << ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub,
                         'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'sdiv': q, 'srem': lambda: a - b * q()}[x[1]](), w)
        if k == 'udiv':
            a, b = self.num(x[1]), self.num(x[2])
            return None if a is None or not b else wrap((a % MASK) // (b % MASK), 64)
        if is_ext(x):
            vs = [self.num(y) for y in x[1:]]
            if any(v is None or isinstance(v, float) for v in vs): return None
            f = max if k.endswith('max') else min
            return f(vs) if k[0] == 's' else wrap(f(v % MASK for v in vs), 64)
        if is_ovf(x):
            o = overflow(x, self.num)
            return None if o is None else int(o[x[2]])
        if k == 'call':
            if is_minmax(x):
                p, q = self.num(x[3]), self.num(x[4])
                if p is None or q is None: return None
                f = max if 'max.' in x[1] else min
                return f(p, q) if '.s' in x[1] else wrap(f(p % MASK, q % MASK), 64)
            if is_ctpop(x):
                p = self.num(x[3]); return None if p is None else bin(p % MASK).count('1')
            if is_abs(x):
                p = self.num(x[3]); return None if p is None else abs(p)
            fc = fp_call(x)
            if fc:
                p = self.num(x[3])
                if p is None: return None
                if fc in LIBM: return p if p != p or (math.isinf(p) and not fc.startswith('modf')) else float(LIBM[fc](p))
                return p if p != p or math.isinf(p) and fc != 'llvm.fabs' else float(FP_CALLS[fc](p))
        if k in ('cmp', 'not', 'and', 'or', 'xor', 'tobool'):
            b = self.truth(x)
            return None if b is None else int(b)
        return None

    def atom(self, a):
        a = strip(a)
        if a in self.p: return self.p[a]
        if isinstance(a, tuple) and a[0] == 'cmp':
            x, y = self.num(a[2]), self.num(a[3])
            if x is None or y is None: return None
            if a[1].startswith('f'):
                un = math.isnan(x) or math.isnan(y)
                k = a[1][1:]
                if k == 'uno': return un
                if k == 'ord': return not un
                if un: return k[0] == 'u'
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k[1:]]
            if a[1][0] == 'u': x, y = x % MASK, y % MASK
            return {'eq': x == y, 'slt': x < y, 'sle': x <= y, 'ult': x < y, 'ule': x <= y}.get(a[1])
        if isinstance(a, tuple) and is_class(a):
            v, m = self.num(a[3]), self.num(a[4])
            return None if v is None else bool(fpclass(v) & m)
        if isinstance(a, tuple) and (a[0] in ('cast', 'op') or is_ovf(a)):
            v = self.num(a)
            return None if v is None or isinstance(v, float) else bool(v & 1)
        return None

    def truth(self, c): return eval_cond(c, self.atom)

    def resolve(self, e):
        def f(n):
            if isinstance(n, tuple) and n:
                if n[0] == 'ite':
                    t = self.truth(n[1])
                    return n if t is None else (n[2] if t else n[3])
                if n[0] in ('cmp', 'not', 'and', 'or', 'xor'):
                    t = self.truth(n)
                    return n if t is None else ('bool', int(t))
                if n[0] == 'cast' and isinstance(n[3], tuple) and n[3][0] == 'bool': return Poly.const(n[3][1] if n[1] == 'zext' else -n[3][1])
                if is_minmax(n):
                    p, q = self.num(n[3]), self.num(n[4])
                    if p is not None and q is not None:
                        if '.u' in n[1]: p, q = p % MASK, q % MASK
                        return n[3] if (p > q) == ('max.' in n[1]) else n[4]
            return None
        return deep(e, f)

    def reduce(self, e):
        """e with every part that has a value replaced by it."""
        value = lambda n: self.num(n) if n in self.v or compound(n) else None
        def f(n):
            if isinstance(n, Poly):
                def sub(a):
                    v = self.num(a)
                    return Poly.const(v) if v is not None and not isinstance(v, float) else None
                n = n.subst(sub)
                return strip(n)
            if n and isinstance(n[0], str):
                v = value(n)
                if v is not None and not isinstance(v, float): return Poly.const(v)
                if is_ext(n) or is_minmax(n):       # of terms that differ by a number
                    xs = [x if isinstance(x, Poly) else Poly.atom(x) for x in (n[1:] if is_ext(n) else n[3:5])]
                    top = n[0].endswith('max') if is_ext(n) else 'max.' in n[1]
                    best = xs[0]
                    for x in xs[1:]:
                        d = x - best
                        if not d.is_const(): return None
                        if (d.value() > 0) == top: best = x
                    return strip(best)
            return None
        r = deep(e, f)
        return strip(r)

    def contradicts(self):
        """Do two spellings of one condition have different truth values?"""
        seen = {}
        for p, v in self.p.items():
            if seen.setdefault(self.reduce(p), v) != v: return True
        return False

    def same(self, a, b):
        if a == b: return True
        if isinstance(a, (tuple, Poly)) and isinstance(b, (tuple, Poly)):
            a, b = strip(a), strip(b)
            if a == b: return True
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None: return x == y or (x != x and y != y)
            if isinstance(a, Poly) or isinstance(b, Poly):
                if (x is None) != (y is None): return False
                p, q = self.reduce(a), self.reduce(b)
                if p == q: return True
                if not isinstance(p, tuple) or not isinstance(q, tuple): return False
                a, b = p, q
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(self.same(p, q) for p, q in zip(a, b))
        return False


def pick(f, A):
    """The paths consistent with A (exactly one unless atoms are undecided)."""
    out = []
    for conds, evs in f.paths:
        ok = True
        for c, v in conds:
            t = A.truth(c)
            if t is None: raise Unsupported('condition %s cannot be decided' % show(c))
            if t != v: ok = False; break
        if ok: out.append(evs)
    return out


def plain(evs, A):
    out = []
    for e in evs:
        if e[0] == 'loop':
            if A.num(e[1]) == 0 or A.v and A.reduce(e[1]) == Poly.const(0): continue
            b = one_body(e[2], A)
            body = plain(b[1], A)
            if not body and b[2] == 'back' and not b[3]: continue
            out.append(('loop', A.resolve(e[1]), tuple(body), b[2], tuple(A.resolve(x) for x in b[3] or ()), tuple(A.resolve(x) for x in e[3])))
        elif e[0] in ('store', 'put') and unchanged(e, A): continue
        elif e[0] == 'call' and e[1] == 'vpx_capture': continue       # what a task keeps of its own (A04)
        elif e[0] == 'intr' and e[1].startswith('block.') and A.num(e[2][2]) == 0: continue
        else: out.append(tuple(A.resolve(x) if isinstance(x, (tuple, Poly)) else x for x in e[:-1]))
    return out


def unchanged(e, A):
    """A store of the value that is there already."""
    v = e[2][0]
    for l in ([e[1]] if e[0] == 'put' else [('load', e[1], t) for t in ('i8', 'i32', 'i64', 'i16', 'float', 'double', 'ptr')]):
        if l == v: return True
        x = A.v.get(l, A.p.get(l))
        if x is not None and x == x and A.num(v) == x: return True
    return False


def reversed_loops(f):
    """f with its loops walked backwards, where their iterations are
    independent: every event of an iteration is a store to a cell of its own."""
    import copy
    r = copy.copy(f); r.paths = []
    hit = False
    for conds, evs in f.paths:
        out = []
        for e in evs:
            if e[0] == 'loop':
                es = [x for b in e[2] for x in b[1]]
                mine = lambda a: isinstance(a, tuple) and a[:1] == ('k',)
                if es and not e[3] and all(b[2] == 'back' for b in e[2]) and all(x[0] in ('store', 'put') and any(mine(a) for a in atoms_in(x[1])) for x in es):
                    k = next(a for a in atoms_in(es[0][1]) if mine(a))
                    n = e[1] if isinstance(e[1], Poly) else Poly.atom(e[1])
                    sub = lambda t: t.subst(lambda a: n - Poly.const(1) - Poly.atom(k) if a == k else None) if isinstance(t, Poly) else None
                    e = e[:2] + (deep(e[2], sub),) + e[3:]; hit = True
            out.append(e)
        r.paths.append((conds, out))
    return r if hit else None


def atoms_in(e):
    out = []
    def f(x):
        if isinstance(x, Poly):
            for a in x.atoms(): out.append(a); f(a)
        elif isinstance(x, tuple):
            for y in x: f(y)
    f(e)
    return out


def one_body(bodies, A):
    hit = None
    for b in bodies:
        ok = True
        for c, v in b[0]:
            t = A.truth(c)
            if t is None: raise Unsupported('condition %s cannot be decided' % show(c))
            if t != v: ok = False; break
        if ok:
            if hit is not None and (plain(b[1], A), b[2]) != (plain(hit[1], A), hit[2]): raise Unsupported('ambiguous loop body')
            hit = b if hit is None or hit[3] is None else hit
    return hit if hit is not None else ((), (), 'none', ())


def show_e(e):
    if e[0] == 'loop': return 'for k in 0..%s: %s%s' % (show(e[1]), '; '.join(map(show_e, e[2])) or 'nothing', '; break' if e[3] == 'early' else '')
    if e[0] == 'ret': return 'return %s' % show(e[1]) if e[1] is not None else 'return'
    if e[0] == 'call':
        t = '<%s>' % ','.join(e[2]) if e[2] else ''
        return '%s%s(%s)' % (e[1].replace('vpx_', ''), t, ', '.join(map(show, e[3])))
    return show(e)


def assume_ok(A, pre): return True


def compare(impl, ref, pre=None, cases=None, points=None):
    try: return compare_(impl, ref, pre, cases, points)
    except Mismatch as m:
        r = reversed_loops(impl)
        if r is None: raise
        try: return compare_(r, ref, pre, cases, points)
        except (Mismatch, Unsupported): raise m


def unplaced(evs):
    """The events without their source positions."""
    return [('loop', e[1], tuple((c, tuple(unplaced(b)), end, carry) for c, b, end, carry in e[2]), e[3]) if e[0] == 'loop' else e[:-1] for e in evs]


def every(f):
    try: return {(frozenset(c), tuple(unplaced(e))) for c, e in f.paths}
    except TypeError: return f


def feasible(known):
    """Whether conditions that all compare one integer with small constants
    can have these values together.  None for conditions of another kind."""
    leaves = set()
    def see(x):
        if isinstance(x, Poly):
            if x.is_const(): return abs(x.value()) <= 2
            return all(see(a) for a in x.atoms()) and len(x.atoms()) == 1 and x == Poly.atom(list(x.atoms())[0])
        if x[0] == 'load' and x[2] == 'i32': leaves.add(x); return True
        if x[0] == 'op' and x[1] == 'xor' and x[2] == 32: return see(x[3]) and see(x[4])
        if x[0] == 'cmp' and x[1] in ('eq', 'slt', 'sle'): return see(x[2]) and see(x[3])
        return False
    if not all(isinstance(c, tuple) and c[0] == 'cmp' and see(c) for c in known) or len(leaves) != 1: return None
    leaf, = leaves
    def value(x, v):
        if isinstance(x, Poly): return x.value() if x.is_const() else value(list(x.atoms())[0], v)
        if x[0] == 'load': return v
        return value(x[3], v) ^ value(x[4], v)
    op = {'eq': lambda a, b: a == b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b}
    return any(all(op[c[1]](value(c[2], v), value(c[3], v)) == want for c, want in known.items()) for v in range(-6, 7))


def joint(impl, ref):
    """Both are decision trees: walk them together, every condition being true
    or false.  None when they differ where conditions are related."""
    def flat(f):
        out = []
        for conds, evs in f.paths:
            d = {}
            for c, v in conds:
                while c[0] == 'not': c, v = c[1], not v
                if d.setdefault(c, v) != v: break
            else: out.append((d, evs, unplaced(evs)))
        return out
    n = 0
    stack = [(flat(impl), flat(ref), {})]
    while stack:
        a, b, known = stack.pop()
        if not a or not b: continue
        free = next((c for ps in (a, b) for d, _, _ in ps for c in d if c not in known), None)
        if free is None or all(x[2] == y[2] for x in a for y in b):
            n += 1
            for x in a:
                for y in b:
                    if x[2] == y[2]: continue
                    related = {c: v for c, v in known.items() if not (c[0] == 'call' and c[1].startswith('vpp_'))}
                    if related:
                        f = feasible(related)
                        if f is None: return None
                        if not f: continue
                    k = next((k for k, (p, q) in enumerate(zip(x[2], y[2])) if p != q), min(len(x[2]), len(y[2])))
                    loc = next((e[-1] for e in x[1][k:] if e[-1] != '?'), None) or next((e[-1] for e in reversed(x[1][:k + 1]) if e[-1] != '?'), '?')
                    raise Mismatch('%s where %s is expected (with %s)' % (show_e(x[2][k]) if k < len(x[2]) else 'nothing', show_e(y[2][k]) if k < len(y[2]) else 'nothing', ', '.join('%s=%s' % (show(c), v) for c, v in known.items())), loc)
            continue
        for v in (False, True):
            stack.append(([p for p in a if p[0].get(free, v) == v], [p for p in b if p[0].get(free, v) == v], {**known, free: v}))
    return n


def compare_(impl, ref, pre=None, cases=None, points=None):
    """Raise Mismatch when impl and ref differ; pre(A) restricts the
    assignments to the contract.  Returns the number of cases."""
    if len(impl.paths) == 1 and len(ref.paths) == 1 and unplaced(impl.paths[0][1]) == unplaced(ref.paths[0][1]): return 1
    if every(impl) == every(ref): return len(impl.paths)
    if impl.fn.whole and ref.fn.whole:
        n = joint(impl, ref)
        if n: return n
    D = Domain([impl, ref], cases=cases, points=points)
    n = 0
    same = {(id(x), id(y)) for _, x in impl.paths for _, y in ref.paths if unplaced(x) == unplaced(y)}
    end = time.monotonic() + 240
    for A in D.assignments():
        if time.monotonic() > end: raise Unsupported('too many cases to go through')
        if pre is not None and not pre(A): continue
        if points is None and len(A.p) > 1 and A.v and A.contradicts(): continue
        p, q = pick(impl, A), pick(ref, A)
        if not p or not q: continue
        n += 1
        for x in p:
            for y in q:
                if (id(x), id(y)) in same: continue
                px, py = plain(x, A), plain(y, A)
                if len(px) == len(py) and all(A.same(a, b) for a, b in zip(px, py)): continue
                k = next((k for k, (a, b) in enumerate(zip(px, py)) if not A.same(a, b)), min(len(px), len(py)))
                loc = next((e[-1] for e in x[k:] if e[-1] != '?'), None) or next((e[-1] for e in reversed(x[:k + 1]) if e[-1] != '?'), '?')
                got = show_e(px[k]) if k < len(px) else 'nothing'
                exp = show_e(py[k]) if k < len(py) else 'nothing'
                t = A.text()
                raise Mismatch('%s where %s is expected%s' % (got, exp, ' (with %s)' % t if t else ''), loc)
    if not n: raise Unsupported('no case is covered')
    return n


def decide(fn, cases, expect):
    """Compare the truth value a function returns with expect(case) under
    every case (a dict from parameter position to value)."""
    keyed = lambda: ({('arg', k): v for k, v in c.items()} for c in cases())
    D = Domain([fn], cases=keyed)
    n = 0
    for A in D.assignments():
        want = expect({k[1]: v for k, v in A.v.items()})
        if want is None: continue
        n += 1
        for evs in pick(fn, A):
            r = evs[-1][1]
            got = A.truth(r) if not isinstance(r, Poly) or not r.is_const() else bool(r.value() & 1)
            if got is None: raise Unsupported('returned value %s cannot be decided' % show(r))
            if got != want: raise Mismatch('%s is returned where %s is right (with %s)' % (str(got).lower(), str(want).lower(), A.text()), '?')
    if not n: raise Unsupported('no case is covered')
    return n
