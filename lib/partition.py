"""The partition of an index space: blocks in the order they are produced,
as polynomials in the requested sizes; adjacency, coverage and order of
bounds are polynomial identities."""
import itertools
import build
from ir import *
from cells import Mismatch, is_call

PROBE = '''#include "probe.h"
#include "fern/algorithm/core/index_ranges.cc"
using namespace fern::algorithm;
std::vector<IndexRanges<1>> vp_entry_partition_1d(std::size_t n, std::size_t s) { return index_ranges(n, s); }
std::vector<IndexRanges<2>> vp_entry_partition_2d(std::size_t n, std::size_t s, std::size_t t) { return index_ranges(n, s, t); }
'''


def P(x): return x if isinstance(x, Poly) else Poly.atom(x)


def eval_poly(p, V):
    """Value over the naturals with the C semantics of the atoms, or None."""
    r = 0
    for m, c in P(p).t.items():
        x = c
        for a in m:
            v = eval_atom(a, V)
            if v is None: return None
            x *= v
        r += x
    return r


def eval_atom(a, V):
    if a in V: return V[a]
    if isinstance(a, tuple) and a[0] == 'udiv':
        x, y = eval_poly(a[1], V), eval_poly(a[2], V)
        return None if x is None or not y or x < 0 else x // y
    if isinstance(a, tuple) and a[0] in ('umax', 'umin'):
        v = [eval_poly(x, V) for x in a[1:]]
        return None if None in v else (max if a[0] == 'umax' else min)(v)
    if isinstance(a, tuple) and a[0] == 'op' and a[1] in ('urem', 'udiv'):
        x, y = eval_poly(a[3], V), eval_poly(a[4], V)
        return None if x is None or not y else (x % y if a[1] == 'urem' else x // y)
    if isinstance(a, tuple) and a[0] == 'ite':
        c = eval_bool(a[1], V)
        return None if c is None else eval_poly(a[2] if c else a[3], V)
    return None


def eval_bool(c, V):
    def val(a):
        if isinstance(a, tuple) and a[0] == 'cmp':
            x, y = eval_poly(a[2], V), eval_poly(a[3], V)
            if x is None or y is None: return None
            if a[1] in ('ult', 'ule') and (x < 0 or y < 0): return None
            return {'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': x < y, 'sle': x <= y}.get(a[1])
        return None
    return eval_cond(c, val)


def nonneg(d, extra=()):
    """Is polynomial d >= 0 for all sizes?  Sums of products of unsigned
    values, and remainders X - Y*(X/Y)."""
    if all(c > 0 for c in d.t.values()): return True
    for a in d.atoms():
        if isinstance(a, tuple) and a[0] == 'udiv':
            rest = d - (a[1] - a[2] * Poly.atom(a))
            if rest != d and len(rest.t) < len(d.t) and all(c > 0 for c in rest.t.values()): return True
    return False


class Split(Exception):
    def __init__(self, cond): self.cond = cond


class Partition:
    def __init__(self, j, D, extent):
        self.fn = Fn(j); self.D = D; self.extent = extent      # extent: args that are the sizes
        self.blocks = 0; self.identities = 0

    def run(self):
        paths = [p for p in self.fn.function_paths() if p['end'][0] != 'unreachable']
        self.undecided = None
        n = 0
        for p in paths:
            todo = [dict()]
            while todo:
                self.assume = todo.pop()
                q = dict(p, conds=[c for c in p['conds'] if c[0] != 'loopexit'] + list(self.assume.items()))
                try:
                    n += 1
                    self.path(q)
                except Split as e:
                    if len(self.assume) > 6: raise Unsupported('too many cases')
                    for v in (True, False): todo.append({**self.assume, e.cond: v})
        if self.undecided: raise Unsupported('cannot decide: ' + self.undecided)
        return n

    def resolve(self, e):
        """Conditional values, case by case."""
        def f(n):
            if isinstance(n, tuple) and n and n[0] == 'ite':
                if n[1] not in self.assume: raise Split(n[1])
                return n[2] if self.assume[n[1]] else n[3]
            return None
        return P(deep(e, f))

    def refute(self, p, what, f, loc):
        """The bound `what` is not one of the provable forms: either a small
        instance violates it, or the analysis gives no answer."""
        for vals in itertools.product(range(1, 6), range(0, 12), range(0, 4) if self.D == 2 else (1,)):
            V = {('arg', 1): vals[0], ('arg', 2): vals[1], ('arg', 3): vals[2]}
            ok = True
            for c, v in p['conds']:
                r = eval_bool(c, V)
                if r is None or r != v: ok = False; break
            if not ok: continue
            if f(V) is False: raise Mismatch('%s (for example %d blocks requested of extent %d)' % (what, vals[0], vals[1]), loc)
        self.undecided = self.undecided or what

    def equal(self, p, a, b, what, loc, k=None, T=None):
        if a == b: return
        def f(V):
            if k is None: x, y = eval_poly(a, V), eval_poly(b, V); return None if x is None or y is None else x == y
            t = eval_poly(T, V)
            if t is None: return None
            for j in range(max(0, min(t - 1, 20))):
                W = dict(V); W[k] = j
                x, y = eval_poly(a, W), eval_poly(b, W)
                if x is None or y is None: return None
                if x != y: return False
            return True
        self.refute(p, what, f, loc)

    def assume_equal(self, p, a, b):
        if a == b: return True
        for c, v in p['conds']:
            while c[0] == 'not': c, v = c[1], not v
            if c[0] == 'cmp' and c[1] == 'eq' and v:
                d = P(c[2]) - P(c[3])
                if d == a - b or d == b - a: return True
            if c[0] == 'cmp' and c[1] in ('ult', 'ule') and v == (c[1] == 'ule'):
                hi, lo = (P(c[2]), P(c[3])) if c[1] == 'ult' else (P(c[3]), P(c[2]))       # hi >= lo on this path
                if nonneg(lo - hi) and lo - hi in (a - b, b - a): return True
        return False

    def path(self, p):
        size = [Poly.atom(('arg', 2 + d)) for d in range(self.D)]
        cur = Poly.const(0)
        n_elem = None
        filled = pushed = False
        done = {}       # counters after their loop
        N = lambda e: self.resolve(e).subst(lambda a: n_elem if n_elem is not None and is_call(a, 'vpx_ranges_count') else done.get(a))
        if self.impossible(p): return
        # block: (trips or None, k, begin[], end[], loc)
        for i in p['items']:
            if i[0] == 'loop':
                node = i[1]
                if node['trips'] is not None and N(node['trips']) == Poly.const(0): continue
                bl = self.loop_block(node)
                if bl is None: continue
                if node['trips'] is None and bl[1] == ('push',) and n_elem is None and not pushed: node['trips'] = self.until_size(node)
                if node['trips'] is None: raise Unsupported('loop without iteration count')
                pushed = True
                bs, kind, loc = bl
                k = ('k', node['id'])
                T = node['trips']
                T = N(T); done[('klast', node['id'])] = T; bs = [(N(b), N(e)) for b, e in bs]
                if kind[0] == 'store':
                    filled = True
                    if n_elem is None: raise Mismatch('blocks are stored in a partition of unknown size', loc)
                    if kind[1] != Poly.atom(k): raise Unsupported('blocks stored in an unusual order')
                    if T != n_elem:
                        f = lambda V: None if None in (eval_poly(T, V), eval_poly(n_elem, V)) else eval_poly(T, V) <= eval_poly(n_elem, V)
                        self.refute(p, 'more blocks are stored than the partition has room for', f, loc)
                sub = lambda e, v: e.subst(lambda a: v if a == k else None)
                b, e = bs[0]
                self.blocks += 1; self.identities += 3
                self.equal(p, sub(b, Poly.const(0)), cur, 'the first block starts at %r instead of %r' % (sub(b, Poly.const(0)), cur), loc, k, T + Poly.const(1))
                self.equal(p, sub(b, Poly.atom(k) + Poly.const(1)), e, 'block k ends at %r but block k+1 starts at %r' % (e, sub(b, Poly.atom(k) + Poly.const(1))), loc, k, T)
                if not nonneg(e - b): self.refute(p, 'a block ends before it begins', lambda V: None if eval_poly(e - b, {**V, k: 0}) is None else eval_poly(e - b, {**V, k: 0}) >= 0 or eval_poly(T, V) in (None, 0), loc)
                cur = sub(b, T)
                last = cur
                if not nonneg(size[0] - last): self.refute(p, 'the blocks run past the end', lambda V: None if eval_poly(size[0] - last, V) is None else eval_poly(size[0] - last, V) >= 0, loc)
                self.other_dims(p, bs, size, loc, k, T + Poly.const(1))
            elif i[0] == 'call':
                n = i[1][0]
                if n == 'vpx_ranges_resize': n_elem = self.resolve(i[1][-1])
                elif n == 'vpx_ranges_push':
                    pushed = True
                    a = [N(x) for x in i[1][-2 * self.D:]]
                    bs = [(a[2 * d], a[2 * d + 1]) for d in range(self.D)]
                    b, e = bs[0]
                    self.blocks += 1; self.identities += 2
                    self.equal(p, b, cur, 'a block starts at %r instead of %r' % (b, cur), i[3])
                    if not nonneg(e - b): self.refute(p, 'a block ends before it begins', lambda V: None if eval_poly(e - b, V) is None else eval_poly(e - b, V) >= 0, i[3])
                    self.other_dims(p, bs, size, i[3])
                    cur = e
                elif n.startswith('llvm'): pass
                else: raise Unsupported('call of ' + str(n))
            elif i[0] == 'store':
                a = i[1][0]
                if a[0] == 'off' and is_call(a[1], 'vpx_ranges_data') or is_call(a, 'vpx_ranges_data'): raise Unsupported('single block stored by position')
        self.identities += 1
        if not self.assume_equal(p, cur, size[0]):
            f = lambda V: None if eval_poly(cur, V) is None or eval_poly(size[0], V) is None else (eval_poly(cur, V) == eval_poly(size[0], V) or (self.D == 2 and V[('arg', 3)] == 0))
            self.refute(p, 'the last block ends at %r instead of %r' % (cur, size[0]), f, self.fn.loc(self.last_inst()))

    def until_size(self, node):
        """Iterations of a loop that adds one block at a time to an empty
        partition until it has a number of blocks."""
        for q in node['paths']:
            if q['end'][0] != 'exit' or not q['conds']: continue
            c, v = q['conds'][-1][:2]
            while isinstance(c, tuple) and c[0] == 'not': c, v = c[1], not v
            if not (isinstance(c, tuple) and c[0] == 'cmp'): return None
            for a, b, ok in ((c[2], c[3], (c[1], v) in (('ult', False), ('eq', True))), (c[3], c[2], (c[1], v) in (('ule', True), ('eq', True)))):
                a = a.sole_atom() if isinstance(a, Poly) else a
                if ok and is_call(a, 'vpx_ranges_count') and not contains(b, lambda t: is_call(t, 'vpx_ranges_count')): return P(b)
        return None

    def impossible(self, p): return False

    def last_inst(self):
        for b in reversed(self.fn.j['blocks']):
            for i in reversed(b['insts']):
                if self.fn.loc(i) != '?': return i
        return {}

    def other_dims(self, p, bs, size, loc, k=None, T=None):
        for d in range(1, self.D):
            self.identities += 1
            what = 'in dimension %d a block covers [%r, %r) instead of [0, %r)' % (d, bs[d][0], bs[d][1], size[d])
            self.equal(p, bs[d][0], Poly.const(0), what, loc, k, T)
            self.equal(p, bs[d][1], size[d], what, loc, k, T)

    def loop_block(self, node):
        """The one block produced per iteration."""
        st = {}; push = None; loc = node['loc']
        back = [q for q in node['paths'] if q['end'][0] == 'back']
        if len(back) != 1: raise Unsupported('branches inside the loop over the blocks')
        for x in back[0]['items']:
            if x[0] == 'loop': raise Unsupported('nested loop over blocks')
            if x[0] == 'store':
                a, v, ty = x[1]
                base, off = (a[1], a[2]) if a[0] == 'off' else (a, Poly.const(0))
                if is_call(base, 'vpx_ranges_data'): st[off] = (P(v), x[3])
            elif x[0] == 'call' and x[1][0] == 'vpx_ranges_push': push = ([P(z) for z in x[1][-2 * self.D:]], x[3])
        if push and st: raise Unsupported('two blocks per iteration')
        if push: return [(push[0][2 * d], push[0][2 * d + 1]) for d in range(self.D)], ('push',), push[1]
        if not st: return None
        if len(st) != 2 * self.D: raise Unsupported('%d bounds stored per iteration' % len(st))
        offs = sorted(st, key=lambda o: o.t.get((), 0))
        base = offs[0]
        for n, o in enumerate(offs):
            if o != base + Poly.const(8 * n): raise Unsupported('bounds stored at unexpected positions')
        if any(c % (16 * self.D) for c in base.t.values()): raise Unsupported('block position')
        idx = Poly({m: c // (16 * self.D) for m, c in base.t.items()})
        vs = [st[o][0] for o in offs]
        return [(vs[2 * d], vs[2 * d + 1]) for d in range(self.D)], ('store', idx), st[offs[0]][1]
