"""Accumulators represent exactly the values added."""
import laws
from laws import Law
LEVEL = 'other'
H = 'fern/algorithm/accumulator/%s.h'
PRE = '''#include "probe.h"
#include <limits>
#include <algorithm>
#include <cmath>
#include <cassert>
template<int K, typename T> void vpx_out(T) VP_EFF;
template<typename T> T mn(T a, T b) { return b < a ? b : a; }
template<typename T> T mx(T a, T b) { return a < b ? b : a; }
template<typename A> auto val(A const& a) { return a(); }
'''


def simple(cls, A, R, step, merge, init, header, policy, default=None):
    """Laws of an accumulator whose state is its result."""
    T = 'fern::algorithm::accumulator::%s<%s, %s>' % (cls, A, R)
    n = '%s<%s,%s> ' % (cls, A, R)
    h = H % header
    L = lambda name, sig, impl, ref: Law(n + name, sig, impl, ref, header=h)
    out = [
        L('construct from a value', '%s v' % A, '%s a(v); vpx_out<0>(a());' % T, 'vpx_out<0>(%s(%s));' % (R, init)),
        L('assign a value', '%s& a, %s v' % (T, A), 'a = v; vpx_out<0>(a());', 'vpx_out<0>(%s(%s));' % (R, init)),
        L('add a value', '%s& a, %s v' % (T, A), 'a(v); vpx_out<0>(a());', '%s r = val(a); vpx_out<0>(%s(%s));' % (R, R, step)),
        L('merge', '%s& a, %s const& b' % (T, T), 'auto& x = (a |= b); vpx_out<0>(a()); vpx_out<1>(x()); vpx_out<2>(b());', '%s r = val(a), s = val(b); %s m = %s; vpx_out<0>(m); vpx_out<1>(m); vpx_out<2>(s);' % (R, R, merge)),
        L('merge into a new one', '%s const& a, %s const& b' % (T, T), '%s c(a | b); vpx_out<0>(c()); vpx_out<1>(a()); vpx_out<2>(b());' % T, '%s r = val(a), s = val(b); vpx_out<0>(%s(%s)); vpx_out<1>(r); vpx_out<2>(s);' % (R, R, merge)),
        L('copy', '%s const& a' % T, '%s c(a); vpx_out<0>(c());' % T, 'vpx_out<0>(val(a));'),
    ]
    if default is not None:
        out.append(L('default construct', '', '%s a; vpx_out<0>(a());' % T, 'vpx_out<0>(%s(%s));' % (R, default)))
        out.append(L('first value after default construction', '%s v' % A, '%s a; a(v); vpx_out<0>(a());' % T, '%s r = %s; vpx_out<0>(%s(%s));' % (R, default, R, step)))
    if policy:
        out.append(L('add a value under a range policy', '%s& a, %s v' % (T, A), 'bool ok = a.template operator()<vp::Rng2>(v); vpx_out<0>(a()); vpx_out<1>(ok);',
                     '%s r = val(a); %s m = %s; vpx_out<0>(m); vpx_out<1>(vp::Rng2<%s, %s, %s>::within_range(r, %s, m));' % (R, R, step, R, A, R, policy)))
    return out


def history(cls, A, R, header, result, has_policy):
    """Accumulators with a composite state: the result of every short history
    of construction, assignment, addition and merging, the values symbolic."""
    T = 'fern::algorithm::accumulator::%s<%s, %s>' % (cls, A, R)
    n = '%s<%s,%s> ' % (cls, A, R)
    L = lambda name, k, impl, ref: Law(n + name, ', '.join('%s v%d' % (A, i) for i in range(1, k + 1)), impl, ref, header=H % header)
    out = lambda vs: 'vpx_out<0>(%s);' % result(vs, R)
    o = [L('construct from a value', 1, '%s a(v1); vpx_out<0>(a());' % T, out(['v1'])),
         L('add two values', 2, '%s a(v1); a(v2); vpx_out<0>(a());' % T, out(['v1', 'v2'])),
         L('add three values', 3, '%s a(v1); a(v2); a(v3); vpx_out<0>(a());' % T, out(['v1', 'v2', 'v3'])),
         L('assignment restarts', 3, '%s a(v1); a(v2); a = v3; vpx_out<0>(a());' % T, out(['v3'])),
         L('assignment then addition', 3, '%s a(v1); a = v2; a(v3); vpx_out<0>(a());' % T, out(['v2', 'v3'])),
         L('merge two', 3, '%s a(v1), b(v2); b(v3); auto& x = (a |= b); vpx_out<0>(a()); vpx_out<0>(x()); vpx_out<0>(b());' % T, out([('v1',), ('v2', 'v3')]) * 2 + out(['v2', 'v3'])),
         L('merge into a new one', 3, '%s a(v1), b(v2); a(v3); %s c(a | b); vpx_out<0>(c()); vpx_out<0>(a()); vpx_out<0>(b());' % (T, T), out([('v1', 'v3'), ('v2',)]) + out(['v1', 'v3']) + out(['v2'])),
         L('add after merging', 3, '%s a(v1), b(v2); a |= b; a(v3); vpx_out<0>(a());' % T, out(['v1', 'v2', 'v3'])),
         L('default constructed, two values', 2, '%s a; a(v1); a(v2); vpx_out<0>(a());' % T, out(['', 'v1', 'v2'])),
         L('merge into default constructed', 2, '%s a, b; b(v1); b(v2); a |= b; vpx_out<0>(a());' % T, out(['', ('', 'v1', 'v2')]))]
    if has_policy:
        o.append(L('additions under a range policy', 3, '%s a(v1); a.template operator()<vp::Rng2>(v2); a.template operator()<vp::Rng2>(v3); vpx_out<0>(a());' % T, out(['v1', 'v2', 'v3'])))
        o.append(L('verdict of the range policy', 2, '%s a(v1); bool ok = a.template operator()<vp::Rng2>(v2); vpx_out<0>(ok);' % T, '%s r = v1; %s m = r + v2; vpx_out<0>(vp::Rng2<%s, %s, %s>::within_range(r, v2, m));' % (R, R, R, A, R)))
        o.append(L('merge under a range policy', 3, '%s a(v1), b(v2); b(v3); a.template operator|=<vp::Rng2>(b); vpx_out<0>(a());' % T, out([('v1',), ('v2', 'v3')])))
    return o


def fold(vs, f, z):
    parts = []
    for v in vs:
        if isinstance(v, tuple): parts.append(fold(list(v), f, z))
        elif v == '': parts.append(z)
        else: parts.append('R(%s)' % v)
    r = parts[0]
    for p in parts[1:]: r = f(r, p)
    return r


def count_of(vs): return sum(count_of(v) if isinstance(v, tuple) else v != '' for v in vs)


def mean(vs, R): return ('%s(' % R) + fold(vs, lambda a, b: '(%s + %s)' % (a, b), 'R(0)').replace('R(', R + '(') + ' / %s(%d))' % (R, count_of(vs))


def rng(vs, R):
    mx = fold(vs, lambda a, b: 'mx<%s>(%s, %s)' % (R, a, b), 'std::numeric_limits<R>::lowest()')
    mn = fold(vs, lambda a, b: 'mn<%s>(%s, %s)' % (R, a, b), 'std::numeric_limits<R>::max()')
    return '%s((%s) - (%s))' % (R, mx.replace('R(', R + '(').replace('<R>', '<%s>' % R), mn.replace('R(', R + '(').replace('<R>', '<%s>' % R))


def all_laws():
    out = []
    for A, R in (('double', 'int32_t'), ('int32_t', 'uint64_t')):
        out += simple('Count', A, R, 'r + 1', 'r + s', '1', 'count', '1', '0')
    for A, R in (('int32_t', 'int32_t'), ('int32_t', 'int64_t'), ('float', 'double')):
        out += simple('Sum', A, R, 'r + v', 'r + s', 'v', 'sum', 'v', '0')
    for A in ('int32_t', 'double', 'uint8_t'):
        out += simple('Min', A, A, 'mn<%s>(r, v)' % A, 'mn<%s>(r, s)' % A, 'v', 'min', None, 'std::numeric_limits<%s>::max()' % A)
        out += simple('Max', A, A, 'mx<%s>(r, v)' % A, 'mx<%s>(r, s)' % A, 'v', 'max', None, 'std::numeric_limits<%s>::lowest()' % A)
    for cls, A, R in (('Sum', 'int32_t', 'int32_t'), ('Sum', 'int32_t', 'int64_t'), ('Sum', 'float', 'double'), ('Count', 'double', 'int32_t'), ('Count', 'int32_t', 'uint64_t')):
        T = 'fern::algorithm::accumulator::%s<%s, %s>' % (cls, A, R)
        out.append(Law('%s<%s,%s> merge under a range policy' % (cls, A, R), '%s& a, %s const& b' % (T, T), 'bool ok = a.template operator|=<vp::Rng2>(b); vpx_out<0>(a()); vpx_out<1>(ok);', '%s r = val(a), s = val(b); %s m = r + s; vpx_out<0>(m); vpx_out<1>(vp::Rng2<%s, %s, %s>::within_range(r, s, m));' % (R, R, R, R, R), header=H % cls.lower()))
    out += history('Mean', 'int32_t', 'double', 'mean', mean, True)
    out += history('Mean', 'double', 'double', 'mean', mean, True)
    out += history('Range', 'int32_t', 'int32_t', 'range', rng, False)
    out += history('Range', 'double', 'double', 'range', rng, False)
    return out


def run(ctx):
    ctx.explanation = ('Accumulators count, sum, min, max, mean and range: construction, assignment, addition, merging and the range-checked variants of both, each compared as an expression over the opaque state '
                       '(or, for composite states, over symbolic values of every short history) with the law it has to satisfy, for every ordering of the values.')
    laws.check(ctx, 'accumulator laws', PRE, all_laws(), 100, effects=False)
