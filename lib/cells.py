"""Per-cell event tables: which probe events touch a generic cell, under which
valuation of the cell's predicates, compared with a decision table."""
import itertools
from ir import *


class Mismatch(Exception):
    def __init__(self, msg, loc='?'):
        super().__init__(msg); self.msg = msg; self.loc = loc


def size_hook(unified, strides=True, rank=None):
    """Sizes of the values in `unified` (equal shapes by contract) become one
    symbol per dimension; index(o, a, b) is the row-major linear index."""
    def hook(r, w):
        n, t = r[1], r[2]
        if n == 'vpx_size1': return Poly.atom(('S', 0) if t[0] in unified else ('S', 0, t[0]))
        if n == 'vpx_size':
            d = r[4]
            if isinstance(d, Poly) and d.is_const():
                return Poly.atom(('S', d.value()) if t[0] in unified else ('S', d.value(), t[0]))
        if n == 'vpx_index':
            a, b = r[4], r[5]
            a = a if isinstance(a, Poly) else Poly.atom(a); b = b if isinstance(b, Poly) else Poly.atom(b)
            return a * Poly.atom(('S', 1) if t[0] in unified else ('S', 1, t[0])) + b
        return None
    return hook


def is_call(e, name): return isinstance(e, tuple) and len(e) > 2 and e[0] == 'call' and e[1] == name


def value_norm(e):
    """Probe-level reading of an expression."""
    def f(n):
        if isinstance(n, tuple) and n and n[0] == 'load':
            a = n[1]
            if is_call(a, 'vpx_get'): return ('in', a[2][0], a[4])
            if is_call(a, 'vpx_get0'): return ('in', a[2][0])
        if is_call(n, 'vpx_nd'): return ('nd', n[2][0], n[3])
        if is_call(n, 'vpx_nd0'): return ('nd', n[2][0])
        if is_call(n, 'vpx_dom'): return ('dom',) + n[3:]
        if is_call(n, 'vpx_rng'): return ('rng',) + n[3:]
        if is_call(n, 'vpx_alg'): return ('alg',) + n[3:]
        return None
    return deep(e, f)


class Table:
    """Reads the events of one entry function."""

    keep_alg = False

    def __init__(self, fn):
        self.fn = fn
        self.cells = 0        # cell paths compared
        self.passes = 0
        self.blocks = 0
        self.captures = 0

    # ---- events -----------------------------------------------------------
    def norm_event(self, ev):
        """('mark', idx|None) / ('put', K, idx|None, value) / ('ev', ...) / None"""
        kind, a, _, loc = ev
        if kind == 'call':
            n, t = a[0], a[1]
            if n == 'vpx_mark': return ('mark', a[2])
            if n == 'vpx_mark0': return ('mark', None)
            if n == 'vpx_alg': return ('alg',) + tuple(value_norm(x) for x in a[2:])
            return ('ev', n, t) + tuple(value_norm(x) for x in a[2:])
        if kind == 'store':
            addr, v, ty = a
            if is_call(addr, 'vpx_get'): return ('put', addr[2][0], addr[4], value_norm(v))
            if is_call(addr, 'vpx_get0'): return ('put', addr[2][0], None, value_norm(v))
            base = addr[1] if isinstance(addr, tuple) and addr[0] == 'off' else addr
            if isinstance(base, tuple) and base[0] == 'alloca': return ('local', base[1], addr, v)
            return ('ev', 'store', addr, value_norm(v))
        if kind == 'intr':
            n = a[0]
            if n.startswith('llvm.lifetime'): return ('life', n, a)
            if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                base = a[1][1] if isinstance(a[1], tuple) and a[1][0] == 'off' else a[1]
                if isinstance(base, tuple) and base[0] == 'alloca': return ('local', base[1], a[1], a[2])
            return ('ev',) + tuple(value_norm(x) for x in a)
        return ('ev', kind) + tuple(a)

    # ---- domain coverage ---------------------------------------------------
    def range_of(self, trips, lo):
        """Iteration count -> exclusive end of a counter starting at lo."""
        if trips is None: return None
        for a in trips.atoms():
            if isinstance(a, tuple) and a[0] == 'umax' and len(a) == 3:
                if trips == Poly.atom(a) - lo:
                    if a[1] == lo: return a[2]
                    if a[2] == lo: return a[1]
        return trips + lo

    def covers(self, loops, E, want, stride):
        """Does E, over the nest `loops`, visit every cell of the box `want`
        exactly once?  want = [(begin, end)] per dimension."""
        ks = [('k', l['id']) for l in loops]
        D = len(want)
        for l in loops:
            if l['trips'] is None: return 'loop at %s has no provable iteration count' % l['loc']
        # reversed counters
        fwd = E
        for l, k in zip(loops, ks):
            c = fwd.coeff(k)
            if c is None: return 'index is not linear in the loop counters'
            if any(v < 0 for v in c.t.values()) and all(v < 0 for v in c.t.values()):
                n = l['trips']
                fwd = fwd.subst(lambda a, k=k, n=n: (n - Poly.const(1) - Poly.atom(k)) if a == k else None)
        base = fwd.subst(lambda a: Poly({}) if a in ks else None)
        coeffs = {k: fwd.coeff(k) for k in ks}
        def box_base(starts):
            if D == 1: return starts[0]
            return starts[0] * stride + starts[1]
        if len(loops) == 1 and D == 2:
            # flattened traversal of the whole array
            if all(b == Poly.const(0) for b, _ in want) and coeffs[ks[0]] == Poly.const(1) and base == Poly.const(0) and want[1][1] == stride and loops[0]['trips'] == want[0][1] * want[1][1]: return None
            return 'a single loop does not visit all cells of the two-dimensional block'
        if len(loops) != D: return 'loop nest of depth %d for a %d-dimensional value' % (len(loops), D)
        strides = [Poly.const(1)] if D == 1 else [stride, Poly.const(1)]
        order = None
        for perm in itertools.permutations(range(D)):
            if all(coeffs[ks[p]] == strides[d] for d, p in enumerate(perm)): order = perm
        if order is None: return 'index %r does not advance one cell per iteration of each dimension' % fwd
        if base != box_base([w[0] for w in want]): return 'traversal starts at cell %r instead of %r' % (base, box_base([w[0] for w in want]))
        for d, p in enumerate(order):
            end = self.range_of(loops[p]['trips'], want[d][0])
            # a counter from zero over (end - begin) is fine as well
            if end != want[d][1] and loops[p]['trips'] != want[d][1] - want[d][0]:
                return 'dimension %d: loop at %s runs over %r, expected [%r, %r)' % (d, loops[p]['loc'], loops[p]['trips'], want[d][0], want[d][1])
        return None

    # ---- generic cell --------------------------------------------------------
    def setup(self, want, stride):
        self.want, self.stride, self.cov = want, stride, {}

    def covered(self, loops, idx):
        key = (tuple(l['id'] for l in loops), idx)
        if key not in self.cov: self.cov[key] = self.covers(loops, idx, self.want_of(loops), self.stride) if isinstance(idx, Poly) else 'index is not an integer expression'
        return self.cov[key]

    def want_of(self, loops): return self.cur_want

    def cellify(self, e, loops):
        def f(n):
            if isinstance(n, tuple) and len(n) == 3 and n[0] in ('in', 'nd') and isinstance(n[2], Poly) and loops and self.covered(loops, n[2]) is None: return (n[0], n[1], 'cell')
            return None
        return deep(e, f)

    def possible(self, items, V, loops):
        """Event sequences for a generic cell under valuation V."""
        seqs = {()}
        for i in items:
            if i[0] == 'loop':
                node = i[1]
                opts = self.loop_seqs(node, V, loops)
                seqs = {a + b for a in seqs for b in opts}
            else:
                e = self.event_of(i, loops)
                if e is not None: seqs = {a + (e,) for a in seqs}
            if len(seqs) > 400: raise Unsupported('too many event sequences')
        return seqs

    def event_of(self, i, loops):
        e = self.norm_event(i)
        self.where[e] = i[3]
        k = e[0]
        if k == 'alg' and self.keep_alg:
            self.where[('alg',)] = i[3]; return ('alg',)
        if k in ('life', 'local', 'alg'): return None
        if k in ('mark', 'put'):
            idx = e[1] if k == 'mark' else e[2]
            if idx is None: cell = '0d'
            else:
                if not loops: why = 'not inside a loop over the cells'
                else: why = self.covered(loops, idx)
                if why is not None:
                    r = ('stray', 'mark' if k == 'mark' else 'put', e[1] if k == 'put' else None, '%s of cell %r: %s' % ('marking' if k == 'mark' else 'writing', idx, why))
                    self.where[r] = i[3]
                    return r
                cell = 'cell'
            r = ('mark', cell) if k == 'mark' else ('put', e[1], cell, self.cellify(e[3], loops))
            self.where[r] = i[3]
            return r
        if k == 'ev':
            if e[1] in PROTOCOL: return None
            x = self.other_event(e, loops, i)
            if x is not None: self.where[x] = i[3]
            return x
        return e

    def other_event(self, e, loops, i):
        return tuple(self.cellify(x, loops) if isinstance(x, (tuple, Poly)) else x for x in e)

    def consistent(self, conds, V, loops):
        for c, v in conds:
            if c == 'loopexit' : continue
            r = eval_cond(self.cellify(value_norm(c), loops), V.get)
            if r is not None and r != v: return False
        return True

    def loop_seqs(self, node, V, loops):
        # the loop over the blocks of a partition
        vec = self.block_loop(node)
        old = self.cur_want
        if vec is not None:
            self.blocks += 1
            k = Poly.atom(('k', node['id']))
            self.cur_want = [self.block_range(vec, k, d) for d in range(len(self.want))]
            inner = []
        else: inner = loops + [node]
        out = set()
        n = 0
        for p in node['paths']:
            conds = [c for c in p['conds'] if c[0] != 'loopexit']
            if p['end'][0] == 'back':
                if empty_box(conds, self.cur_want): continue
                if not self.consistent(conds, V, inner): continue
                n += 1
                out |= self.possible(p['items'], V, inner)
            else:
                if node['single']:
                    if any(self.event_of(i, inner) is not None for i in p['items'] if i[0] != 'loop') or any(i[0] == 'loop' for i in p['items']): raise Mismatch('effects on the way out of the loop at %s' % node['loc'], node['loc'])
                elif not self.consistent(conds, V, inner): continue
                elif p['end'][0] == 'exit' and not self.iv_exit(node, p): raise Mismatch('the loop at %s can stop before all cells are visited' % node['loc'], node['loc'])
        self.cells += n
        self.cur_want = old
        if not out and n == 0: out = {()}
        return out

    def iv_exit(self, node, p): return False

    def block_loop(self, node):
        """vec if node runs once for every element of the index-range vector vec."""
        t = node['trips']
        a = t.sole_atom() if t is not None else None
        if is_call(a, 'vpx_ranges_count'): return a[3]
        return None

    def block_range(self, vec, k, d):
        D = len(self.want)
        base = ('call', 'vpx_ranges_data', (str(D) + 'ul',), vec)
        def fld(o):
            off = k * Poly.const(16 * D) + Poly.const(o)
            return Poly.atom(('load', ('off', base, off), 'i64'))
        return fld(16 * d), fld(16 * d + 8)

    def check(self, paths, want, stride, atoms, expected, what=''):
        """Compare with the decision table expected(V) -> event tuple."""
        self.want = want; self.stride = stride; self.cur_want = want; self.cov = {}; self.where = {}
        n = 0
        for vals in itertools.product((False, True), repeat=len(atoms)):
            V = dict(zip(atoms, vals))
            exp = expected(V)
            if exp is None: continue
            hit = 0
            for p in paths:
                if p['end'][0] == 'unreachable': continue
                conds = [c for c in p['conds'] if c[0] != 'loopexit']
                if empty_box(conds, want): continue
                if not self.consistent(conds, V, []): continue
                hit += 1
                for seq in self.possible(p['items'], V, []):
                    n += 1
                    if seq != exp:
                        loc = next((self.where.get(e, '?') for e in seq if e not in exp), None) or next((self.where.get(e, '?') for e in seq), '?')
                        vs = ', '.join('%s=%s' % (show_atom(a), v) for a, v in V.items())
                        raise Mismatch('with %s a cell gets [%s], expected [%s]' % (vs or 'no condition', ', '.join(map(show_ev, seq)), ', '.join(map(show_ev, exp))), loc)
            if not hit: raise Mismatch('no path handles %r' % V)
        return n

    # ---- parallel protocol ------------------------------------------------------
    def protocol(self, paths, want_sizes):
        """Every block of a full partition is submitted once, and every future
        is waited for before returning."""
        n = 0
        for p in paths:
            if p['end'][0] == 'unreachable': continue
            items = p['items']
            vecs = {}
            pushed = {}
            waited = set()
            outstanding = []
            for i in items:
                if i[0] != 'loop':
                    e = self.norm_event(i)
                    if e[0] == 'ev' and e[1].endswith('index_ranges'):
                        args = e[3:]
                        sizes = list(args[2:])
                        if [x if isinstance(x, Poly) else Poly.atom(x) for x in sizes] != want_sizes:
                            raise Mismatch('the domain is partitioned with sizes (%s) instead of (%s)' % (', '.join(map(show, sizes)), ', '.join(map(show, want_sizes))), i[3])
                        vecs[args[0]] = i[3]
                    elif e[0] == 'ev' and e[1] == 'vpx_submit_begin': outstanding.append((i[2], i[3])); n += 1
                    elif e[0] == 'ev' and e[1] == 'vpx_push':
                        pushed.setdefault(e[3], 0); pushed[e[3]] += 1
                        outstanding = [o for o in outstanding if o[0] != e[4]]
                        waited.discard(e[3])
                    elif e[0] == 'ev' and e[1] == 'vpx_future_get': outstanding = [o for o in outstanding if o[0] != e[3]]
                    continue
                node = i[1]
                bl = self.block_loop(node)
                gets = self.get_loop(node)
                if gets is not None: waited.add(gets); continue
                for q in node['paths']:
                    if q['end'][0] != 'back': continue
                    out = []
                    self.dangling(q['items'])
                    for x in self.flat_events(q['items']):
                        e = self.norm_event(x)
                        if e[0] != 'ev': continue
                        if e[1] == 'vpx_submit_begin': out.append((x[2], x[3])); n += 1
                        elif e[1] == 'vpx_push':
                            out = [o for o in out if o[0] != e[4]]; pushed.setdefault(e[3], 0); pushed[e[3]] += 1; waited.discard(e[3])
                        elif e[1] == 'vpx_future_get': out = [o for o in out if o[0] != e[3]]
                    outstanding += out
                if bl is not None and bl not in vecs: raise Mismatch('blocks are not taken from the partition of the domain', node['loc'])
            if outstanding: raise Mismatch('the future of the task submitted here is dropped: nobody waits for the task', outstanding[0][1])
            for v in pushed:
                if v not in waited: raise Mismatch('returns without waiting for the submitted tasks', next(iter(vecs.values()), '?'))
        return n

    def dangling(self, items):
        """A task must not hold on to an object of the iteration that submits it."""
        held, tasks = {}, set()
        waited = False
        for x in self.flat_events(items):
            e = self.norm_event(x)
            if e[0] == 'local':
                v = e[3][1] if isinstance(e[3], tuple) and e[3][0] == 'off' else e[3]
                if isinstance(v, tuple) and v[0] == 'alloca': held.setdefault(e[1], set()).add(v[1])
            elif e[0] == 'ev' and e[1] == 'vpx_capture':
                f = e[3][1] if isinstance(e[3], tuple) and e[3][0] == 'off' else e[3]
                if isinstance(f, tuple) and f[0] == 'alloca':
                    new = {f[1]}
                    while new:
                        n = new.pop(); more = held.get(n, set()) - tasks
                        tasks |= more; new |= more
            elif e[0] == 'ev' and e[1] == 'vpx_future_get': waited = True
            elif e[0] == 'life' and e[1].endswith('.end') and not waited:
                o = next((a for a in e[2] if isinstance(a, tuple) and a[0] == 'alloca'), None)
                if o is not None and o[1] in tasks: raise Mismatch('a submitted task refers to an object that is gone before the task is waited for', self.task_loc(items))

    def task_loc(self, items): return next((x[3] for x in self.flat_events(items) if x[3] != '?'), '?')

    def flat_events(self, items):
        for i in items:
            if i[0] != 'loop': yield i
            else:
                for q in i[1]['paths']:
                    for x in self.flat_events(q['items']): yield x

    def get_loop(self, node):
        t = node['trips']
        a = t.sole_atom() if t is not None else None
        if not is_call(a, 'vpx_future_count'): return None
        vec = a[3]
        idx = Poly.atom(('k', node['id']))
        for q in node['paths']:
            if q['end'][0] != 'back':
                if not node['single']: return None
                continue
            ok = False
            for x in self.flat_events(q['items']):
                e = self.norm_event(x)
                if e[0] == 'ev' and e[1] == 'vpx_future_get':
                    f = e[3]
                    f = f.sole_atom() if isinstance(f, Poly) else f
                    if is_call(f, 'vpx_future_at') and f[3] == vec:
                        i = f[4] if isinstance(f[4], Poly) else Poly.atom(f[4])
                        if i == idx or i == Poly.atom(a) - Poly.const(1) - idx: ok = True
            if not ok: return None
        return vec


PROTOCOL = {'vpx_submit_begin', 'vpx_submit_end', 'vpx_capture', 'vpx_push', 'vpx_future_get', 'vpx_future_dead', 'fern::algorithm::index_ranges'}


def show_atom(a):
    if a[0] == 'nd': return 'input %s is no-data' % a[1]
    if a[0] == 'dom': return 'within domain'
    if a[0] == 'rng': return 'within range'
    return show(a)


def show_ev(e):
    if e[0] == 'mark': return 'mark'
    if e[0] == 'stray': return e[3]
    if e == ('alg',): return 'compute'
    if e[0] == 'put': return 'write(value %s, %s)' % (e[1], show(e[3]))
    return show(e)


def empty_box(conds, want):
    """Do the path conditions say that the box has no cells?"""
    for c, v in conds:
        if not isinstance(c, tuple): continue
        while c[0] == 'not': c, v = c[1], not v
        if c[0] != 'cmp': continue
        a, b = c[2], c[3]
        for lo, hi in want:
            if c[1] == 'eq' and v and {a, b} == {lo, hi}: return True
            if c[1] == 'ult' and not v and a == lo and b == hi: return True
            if c[1] == 'ule' and v and a == hi and b == lo: return True
            if c[1] == 'eq' and v and isinstance(a, Poly) and isinstance(b, Poly) and (a - b == hi - lo or b - a == hi - lo): return True
            if c[1] == 'ult' and v and b == Poly.const(1) and a == hi - lo: return True
    return False
