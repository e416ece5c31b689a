"""Local operations: probes and decision tables.

An entry is one instantiation of a fern operation: argument ranks x execution
policy.  Its decision table says, per valuation of the predicates of a cell,
which events the cell must see.
"""
import itertools
from cells import *
from ir import *

EPS = [('seq', 'SequentialExecutionPolicy'), ('par', 'ParallelExecutionPolicy'), ('dyn', 'ExecutionPolicy')]


class Entry:
    def __init__(self, op, header, dims, types, rtype, call, table, nd=None, D=None, eps=None, scalar_args=()):
        self.op, self.header, self.dims, self.types, self.rtype, self.call, self.table = op, header, dims, types, rtype, call, table
        self.nd = nd if nd is not None else list(range(1, len(dims) + 1))
        self.D = max(dims) if D is None else D
        self.eps = eps or ('seq', 'par', 'dyn')
        self.scalar_args = scalar_args      # positions passed as plain scalars
        self.name = 'vp_entry_%s_%s' % (op, '_'.join('%dd' % d for d in dims))

    def text(self):
        out = []
        for ep, cls in EPS:
            if ep not in self.eps: continue
            args = ['std::tuple<%s> const& i' % ', '.join('vp::ND<%d>' % n for n in self.nd), 'vp::OND& o', cls + '& ep']
            for k, (d, t) in enumerate(zip(self.dims, self.types)):
                if k in self.scalar_args: args.append('%s const& a%d' % (t, k + 1))
                else: args.append('vp::V<%d, %d, %s> const& a%d' % (k + 1, d, t, k + 1))
            args.append('vp::V<0, %d, %s>& r' % (self.D, self.rtype))
            out.append('void %s_%s(%s) { %s; }' % (self.name, ep, ', '.join(args), self.call))
        return '\n'.join(out)

    def inputs(self):
        r = []
        for k, d in enumerate(self.dims):
            if k in self.scalar_args: r.append(('in', str(k + 1)))
            else: r.append(('in', str(k + 1)) if d == 0 else ('in', str(k + 1), 'cell'))
        return r

    def cell(self): return 'cell' if self.D else '0d'


def nds(e): return [('nd',) + x[1:] for k, x in enumerate(e.inputs()) if (k + 1) in e.nd]


def table_local(e):
    """no-data in -> mark; out of domain -> mark; compute; out of range -> mark."""
    ins = e.inputs(); nd = nds(e)
    dom = ('dom',) + tuple(ins); alg = ('alg',) + tuple(ins); rng = ('rng',) + tuple(ins) + (alg,)
    m = ('mark', e.cell()); put = ('put', '0', e.cell(), alg)
    def f(V):
        if any(V[n] for n in nd) or not V[dom]: return (m,)
        return (put,) if V[rng] else (put, m)
    return nd + [dom, rng], f


def table_nullary(e):
    nd = [('nd', '1', 'cell') if e.D else ('nd', '1')]
    m = ('mark', e.cell()); put = ('put', '0', e.cell(), ('alg',))
    return nd, lambda V: (m,) if V[nd[0]] else (put,)


def table_cover(e):
    a, b = e.inputs(); na, nb = nds(e)
    put = lambda v: (('put', '0', e.cell(), v),)
    return [na, nb], lambda V: put(a) if not V[na] else put(b) if not V[nb] else (('mark', e.cell()),)


def table_unite(e):
    n = nds(e)
    return n, lambda V: (('mark', e.cell()),) if any(V[x] for x in n) else ()


def table_intersect(e):
    n = nds(e)
    return n, lambda V: (('mark', e.cell()),) if all(V[x] for x in n) else ()


def truth(x): return ('cmp', 'eq', x, Poly.const(0))


def table_if_then(e):
    c, t = e.inputs(); nc, nt = nds(e)
    z = ('istrue', c)
    def f(V):
        if V[nc] or not V[z] or V[nt]: return (('mark', e.cell()),)
        return (('put', '0', e.cell(), t),)
    return [nc, nt, z], f


def table_if_else(e):
    c, t, f_ = e.inputs(); nc, nt, nf = nds(e)
    z = ('istrue', c)
    def f(V):
        if V[nc]: return (('mark', e.cell()),)
        n, v = (nt, t) if V[z] else (nf, f_)
        return (('mark', e.cell()),) if V[n] else (('put', '0', e.cell(), v),)
    return [nc, nt, nf, z], f


def table_clamp(e):
    v, lo, hi = e.inputs(); nv = nds(e)[0]
    def f(V):
        if V[nv]: return (('mark', e.cell()),)
        if V.rank[lo] > V.rank[hi]: return None          # contract: lower <= upper
        x = V.rank[v]
        r = V.rank[lo] if x < V.rank[lo] else V.rank[hi] if x > V.rank[hi] else x
        return (('put', '0', e.cell(), ('rank', r)),)
    return [nv], f


L = 'fern/algorithm/core/%s.h'


def engine_entries():
    out = []
    for d in (0, 1, 2):
        out.append(Entry('unary', L % 'unary_local_operation', [d], ['int'], 'float', 'unary_local_operation<vp::Alg1, vp::Dom1, vp::Rng1>(i, o, ep, a1, r)', table_local))
        out.append(Entry('disaggregate', L % 'unary_disaggregate_operation', [0], ['int'], 'float', 'unary_disaggregate_operation<vp::Alg1, vp::Dom1, vp::Rng1>(i, o, ep, a1, r)', table_local, D=d, eps=('seq', 'par') if d == 1 else None))
        out[-1].name += '_to_%dd' % d
        e = Entry('nullary', L % 'nullary_local_operation', [], [], 'float', 'nullary_local_operation<vp::AlgN<>>(i, o, ep, r)', table_nullary, nd=[1], D=d, eps=('seq', 'par') if d == 1 else None)
        e.name = 'vp_entry_nullary_%dd' % d
        out.append(e)
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 2)):
        out.append(Entry('binary', L % 'binary_local_operation', [a, b], ['int', 'double'], 'float', 'binary_local_operation<vp::Alg2, vp::Dom2, vp::Rng2>(i, o, ep, a1, a2, r)', table_local))
        out.append(Entry('nary', L % 'n_ary_local_operation', [a, b], ['int', 'double'], 'float', 'n_ary_local_operation<vp::Alg2, vp::Dom2, vp::Rng2>(i, o, ep, r, a1, a2)', table_local))
    return out


def selection_entries():
    out = []
    for dims in ((0, 0), (2, 0), (2, 2)):
        out.append(Entry('cover', L % 'cover', list(dims), ['double', 'double'], 'double', 'core::cover(i, o, ep, a1, a2, r)', table_cover))
    for dims in ((0, 0), (2, 2)):
        out.append(Entry('unite', L % 'unite_no_data', list(dims), ['int', 'double'], 'float', 'core::unite_no_data(i, o, ep, a1, a2, r)', table_unite))
        out.append(Entry('intersect', L % 'intersect_no_data', list(dims), ['int', 'double'], 'float', 'core::intersect_no_data(i, o, ep, a1, a2, r)', table_intersect))
        out.append(Entry('merge', L % 'merge_no_data', [dims[0]], ['int'], 'float', 'core::merge_no_data(i, o, ep, a1, r)', table_unite))
    for dims in ((0, 0), (0, 2), (2, 0), (2, 2)):
        out.append(Entry('if', L % 'if', list(dims), ['int', 'double'], 'double', 'core::if_(i, o, ep, a1, a2, r)', table_if_then))
    for dims in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (0, 2, 2), (2, 2, 2), (2, 2, 0), (2, 0, 2)):
        out.append(Entry('ifelse', L % 'if', list(dims), ['int', 'double', 'double'], 'double', 'core::if_(i, o, ep, a1, a2, a3, r)', table_if_else))
    for dims in ((0, 0, 0), (1, 1, 1), (1, 1, 0), (1, 0, 1), (2, 2, 2), (2, 2, 0), (2, 0, 2)):
        out.append(Entry('clamp', L % 'clamp', list(dims), ['int', 'int', 'int'], 'int', 'core::clamp(i, o, ep, a1, a2, a3, r)', table_clamp))
    return out


class Val(dict):
    """Valuation that also understands comparisons between ranked values and
    the truth of a condition value."""
    rank = {}

    def get(self, a, default=None):
        if a in self: return self[a]
        if isinstance(a, tuple) and a and a[0] == 'cmp':
            x, y = a[2], a[3]
            x = x.sole_atom() if isinstance(x, Poly) and x.sole_atom() is not None else x
            y = y.sole_atom() if isinstance(y, Poly) and y.sole_atom() is not None else y
            for p, q in ((x, y), (y, x)):
                if ('istrue', p) in self and q == Poly.const(0) and a[1] == 'eq': return not self[('istrue', p)]
            if x in self.rank and y in self.rank:
                p, q = self.rank[x], self.rank[y]
                k = a[1].lstrip('f') if a[1] not in ('feq',) else 'eq'
                if k.startswith(('o', 'u', 's')) and k[1:] in ('lt', 'le', 'eq', 'ne', 'gt', 'ge'): k = k[1:]
                return {'lt': p < q, 'le': p <= q, 'eq': p == q, 'gt': p > q, 'ge': p >= q, 'ne': p != q}.get(k)
        if isinstance(a, tuple) and ('istrue', a) in self: return self[('istrue', a)]
        return default


def weak_orders(items):
    seen = set()
    for v in itertools.product(range(len(items)), repeat=len(items)):
        m = sorted(set(v)); r = tuple(m.index(x) for x in v)
        if r not in seen:
            seen.add(r); yield dict(zip(items, r))


class LocalTable(Table):
    def __init__(self, fn, ranked=None):
        super().__init__(fn)
        self.ranked = ranked
        self.keep_alg = True
        self.V = None

    def resolve(self, e):
        """Value of e under the current ordering: a rank if it is one of the
        ranked inputs chosen by comparisons."""
        if self.ranked is None: return e
        while isinstance(e, tuple) and e[0] == 'ite':
            c = eval_cond(e[1], self.V.get)
            if c is None: return e
            e = e[2] if c else e[3]
        if isinstance(e, Poly) and e.sole_atom() is not None: e = e.sole_atom()
        if isinstance(e, tuple) and e[0] == 'call' and '.smax.' in e[1] or isinstance(e, tuple) and e[0] == 'call' and '.smin.' in e[1]:
            a, b = self.resolve(e[3]), self.resolve(e[4])
            if a[0] == 'rank' and b[0] == 'rank': return ('rank', max(a[1], b[1]) if 'smax' in e[1] else min(a[1], b[1]))
        if e in self.V.rank: return ('rank', self.V.rank[e])
        return e

    def event_of(self, i, loops):
        e = super().event_of(i, loops)
        if e is not None and e[0] == 'put' and self.ranked is not None:
            r = e[:3] + (self.resolve(e[3]),)
            self.where[r] = i[3]
            return r
        return e

    def tables(self, paths, want, stride, entry):
        """{(valuation, order): set of event sequences a cell can see}"""
        atoms, table = entry.table(entry)
        self.want = want; self.stride = stride; self.cur_want = want; self.cov = {}; self.where = {}
        ranks = list(weak_orders(entry.inputs())) if self.ranked else [{}]
        out = {}
        for vals in itertools.product((False, True), repeat=len(atoms)):
            for rk in ranks:
                V = Val(zip(atoms, vals)); V.rank = rk; self.V = V
                exp = table(V)
                if exp is None: continue
                seqs = set()
                for p in paths:
                    if p['end'][0] == 'unreachable': continue
                    conds = [c for c in p['conds'] if c[0] != 'loopexit']
                    if empty_box(conds, want): continue
                    if not self.consistent(conds, V, []): continue
                    seqs |= self.possible(p['items'], V, [])
                out[(vals, tuple(sorted(rk.items(), key=repr)))] = (V, exp, seqs)
        return out

    def loc_of(self, seqs, exp=()):
        for s in seqs:
            for e in s:
                if e not in exp: return self.where.get(e, '?')
        for s in seqs:
            for e in s: return self.where.get(e, '?')
        return self.fn.j.get('file', '?')


def probe_text(entries):
    hs = []
    for e in entries:
        if e.header not in hs: hs.append(e.header)
    return '#include "probe.h"\n' + ''.join('#include "%s"\n' % h for h in hs) + 'using namespace fern::algorithm;\n' + '\n'.join(e.text() for e in entries) + '\n'


def valuation_text(V):
    s = ', '.join('%s: %s' % (show_atom(a), 'yes' if v else 'no') for a, v in V.items())
    if V.rank: s += '; order ' + ' '.join('%s=%d' % (show(k), v) for k, v in V.rank.items())
    return s


class Result:
    """What the analysis of one entry under one execution policy found."""
    error = None        # Mismatch: the structure rules out the property
    rows = None         # see LocalTable.tables
    submits = 0
    paths = 0


def analyse(entry, fns, modes=('seq', 'par', 'dyn')):
    """Yield (mode, Result) per execution policy."""
    S = [Poly.atom(('S', 0)), Poly.atom(('S', 1))]
    for ep, _ in EPS:
        if ep not in modes or ep not in entry.eps: continue
        j = fns[entry.name + '_' + ep]
        cases = [(ep, {})] if ep != 'dyn' else [('dyn:sequential', {('load', ('arg', 2), 'i32'): 0}), ('dyn:parallel', {('load', ('arg', 2), 'i32'): 1})]
        for mode, consts in cases:
            fn = Fn(j, consts=consts)
            fn.expr_hook = size_hook({str(k) for k in range(6)})
            t = LocalTable(fn, ranked=(entry.op == 'clamp') or None)
            want = [(Poly.const(0), S[d]) for d in range(entry.D)]
            r = Result()
            r.table = t
            try:
                ps = fn.function_paths()
                r.rows = t.tables(ps, want, S[1], entry)
                r.protocol = None
                try: r.submits = t.protocol(ps, [w[1] for w in want])
                except Mismatch as e: r.protocol = e
            except Mismatch as e: r.error = e
            r.paths = fn.n_paths
            yield mode, r


def _work(a):
    entry, fns, modes = a
    out = []
    try:
        for mode, r in analyse(entry, fns, modes):
            if r.rows is not None:
                r.locs = {k: r.table.loc_of(s, e) for k, (V, e, s) in r.rows.items()}
            r.blocks = r.table.blocks
            r.table = None
            out.append((mode, r))
    except Unsupported as e: return entry, out, str(e)
    return entry, out, None


def analyse_all(entries, modes=('seq', 'par', 'dyn')):
    """[(entry, [(mode, Result)], error text)] for all entries."""
    import build, multiprocessing
    groups = {}
    for e in entries: groups.setdefault(e.header, []).append(e)
    jobs = []
    with build.Scratch() as d:
        with multiprocessing.Pool(8) as pool:
            rs = [(g, pool.apply_async(build.functions, (probe_text(g),), dict(scratch=d, name='probe%d' % n))) for n, g in enumerate(groups.values())]
            for g, r in rs:
                fns = r.get()
                for e in g:
                    mine = {k: v for k, v in fns.items() if k.startswith(e.name)}
                    jobs.append(pool.apply_async(_work, ((e, mine, modes),)))
            return [j.get() for j in jobs]
