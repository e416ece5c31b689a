"""Accumulators that keep what they are given report the statistic of exactly that."""
import re
import laws
from laws import Law
LEVEL = 'other'
H = 'fern/algorithm/accumulator/%s.h'
PRE = r'''#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "vp_small.h"
template<typename T> void vpx_out(T) __attribute__((nothrow));
template<typename T> T lo(T a, T b) { return b < a ? b : a; }
template<typename T> T hi(T a, T b) { return b < a ? a : b; }
template<typename T> void order(T& a, T& b) { T x = lo(a, b), y = hi(a, b); a = x; b = y; }
// The middle of one to four values.
template<typename R, int Way, typename T> R mean2(T a, T b) { return Way == 0 ? R(a + b) / 2 : Way == 1 ? (R(a) + R(b)) / 2 : R(a) + (R(b) - R(a)) / 2; }
template<typename R, int Way, typename T> R median(T a) { return R(a); }
template<typename R, int Way, typename T> R median(T a, T b) { order(a, b); return mean2<R, Way>(a, b); }
template<typename R, int Way, typename T> R median(T a, T b, T c) { order(a, b); order(b, c); order(a, b); return R(b); }
template<typename R, int Way, typename T> R median(T a, T b, T c, T d) { order(a, b); order(c, d); order(a, c); order(b, d); order(b, c); return mean2<R, Way>(b, c); }
template<typename R, typename T> R variance(T const* v, int n) { R s(0); for(int i = 0; i < n; ++i) s = s + R(v[i]); R m = R(s / R(n)); R r(0); for(int i = 0; i < n; ++i) r = r + (m - R(v[i])) * (m - R(v[i])); return R(r / R(n)); }
template<typename R, int Way, typename... T> R var(T... v) { using A = typename std::common_type<T...>::type; A a[] = {v...}; return variance<R>(a, sizeof...(v)); }
template<typename R, int Way, typename... T> R deviation(T... v) { return R(std::sqrt(var<R, 0>(v...))); }
// Whether a value is one that occurs most often.
template<typename T> int times(T x, T const* v, int n) { int k = 0; for(int i = 0; i < n; ++i) k += x == v[i]; return k; }
template<typename R, typename... T> bool is_mode(R m, T... v) { using A = typename std::common_type<T...>::type; A a[] = {v...}; int n = sizeof...(v); int k = times(A(m), a, n); for(int i = 0; i < n; ++i) if(times(a[i], a, n) > k) return false; return k > 0; }
'''


def histories(cls, A, R, header, result, ways=1, mode=False, values=4):
    T = 'fern::algorithm::accumulator::%s<%s, %s>' % (cls, A, R)
    out = []

    def L(name, impl, *results):
        """`impl` with a ! for each time the result is asked for; the values it has to be the result of."""
        k = max(int(v[1:]) for r in results for v in r)
        parts = impl.split('!')
        assert len(parts) == len(results) + 1
        n = max(k, max(int(x) for x in re.findall(r'v(\d)', impl)))
        if n > values: return
        sig = ', '.join('%s v%d' % (A, i) for i in range(1, n + 1))
        ask = lambda p, r: 'vpx_out(is_mode(%s(), %s));' % (p, ', '.join(r)) if mode else 'vpx_out<%s>(%s());' % (R, p)
        body = ''
        for p, r in zip(parts, results):
            head, _, who = p.rpartition(' ')
            body += head + ' ' + ask(who, r)
        body += parts[-1]
        refs = [''.join('vpx_out(true);' if mode else 'vpx_out<%s>(%s<%s, %d>(%s));' % (R, result, R, w, ', '.join(r)) for r in results) for w in range(ways)]
        out.append(Law('%s<%s,%s> %s' % (cls, A, R, name), sig, body.replace('Acc', T), refs, header=H % header))
    L('construct from a value', 'Acc a(v1); a!', ['v1'])
    L('default constructed, one value', 'Acc a; a(v1); a!', ['v1'])
    L('default constructed, two values', 'Acc a; a(v1); a(v2); a!', ['v1', 'v2'])
    L('construct from a value, three values', 'Acc a(v1); a(v2); a(v3); a!', ['v1', 'v2', 'v3'])
    L('four values', 'Acc a(v1); a(v2); a(v3); a(v4); a!', ['v1', 'v2', 'v3', 'v4'])
    L('assignment restarts', 'Acc a(v1); a(v2); a = v3; a!', ['v3'])
    L('assignment then addition', 'Acc a(v1); a = v2; a(v3); a!', ['v2', 'v3'])
    L('assignment to default constructed', 'Acc a; a = v1; a(v2); a!', ['v1', 'v2'])
    L('result asked for twice', 'Acc a(v1); a(v2); a! a!', ['v1', 'v2'], ['v1', 'v2'])
    L('result asked for in between', 'Acc a(v1); a(v2); a! a(v3); a!', ['v1', 'v2'], ['v1', 'v2', 'v3'])
    L('merge', 'Acc a(v1), b(v2); b(v3); a |= b; a! b!', ['v1', 'v2', 'v3'], ['v2', 'v3'])
    L('merge returns the accumulator', 'Acc a(v1), b(v2); auto& x = (a |= b); x(v3); a!', ['v1', 'v2', 'v3'])
    L('merge into a new one', 'Acc a(v1), b(v2); b(v3); Acc c(a | b); c! a! b!', ['v1', 'v2', 'v3'], ['v1'], ['v2', 'v3'])
    L('add after merging', 'Acc a(v1), b(v2); a |= b; a(v3); a!', ['v1', 'v2', 'v3'])
    L('merge into default constructed', 'Acc a, b(v1); b(v2); a |= b; a!', ['v1', 'v2'])
    L('merge a default constructed one', 'Acc a(v1), b; a(v2); a |= b; a!', ['v1', 'v2'])
    L('merge after asking for the result', 'Acc a(v1), b(v2); b(v3); b! a |= b; a!', ['v2', 'v3'], ['v1', 'v2', 'v3'])
    if mode: L('merge values that occur more than once', 'Acc a(v2), b(v1); a(v2); a(v2); a(v1); b(v1); b(v1); a |= b; a! b!', ['v2', 'v2', 'v2', 'v1', 'v1', 'v1', 'v1'], ['v1'])
    L('copies are independent', 'Acc a(v1); Acc b(a); b(v2); a! b!', ['v1'], ['v1', 'v2'])
    return out


def all_laws():
    out = []
    for A, R in (('int32_t', 'int32_t'), ('int64_t', 'int64_t'), ('int32_t', 'double'), ('double', 'double'), ('float', 'float')): out += histories('Median', A, R, 'median', 'median', ways=3, values=4 if A[0] == 'i' else 3)
    for A, R in (('int64_t', 'int64_t'), ('int32_t', 'double')):
        out += histories('Variance', A, R, 'variance', 'var', values=3)
        out += histories('StandardDeviation', A, R, 'standard_deviation', 'deviation', values=3)
    for A, R in (('int32_t', 'int32_t'), ('int64_t', 'int64_t'), ('uint8_t', 'int32_t')): out += histories('Mode', A, R, 'mode', 'is_mode', mode=True, values=3)
    return out


def unfold(f): f.unfold()


def run(ctx):
    ctx.explanation = ('Median, variance, standard deviation and mode: every short history of constructions, assignments, additions, merges and requests for the result, '
                       'over symbolic values, compared with the statistic of exactly the values given, for every ordering of the values.')
    laws.check(ctx, 'container accumulator laws', PRE, all_laws(), 100, shim='shim_small', hooks=unfold, flags=('-ffp-contract=off', '-fwrapv', '-fno-math-errno'))
