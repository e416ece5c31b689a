"""No-data policies test and mark exactly the documented values."""
import laws
from laws import Law
LEVEL = 'other'
PRE = '''#include "probe.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/math.h"
#include "fern/core/type_traits.h"
#include "fern/algorithm/policy/policies.h"
#include <limits>
using namespace fern::algorithm;
template<int K, typename T> T vpp_ndv(void const* o) VP_PURE;
template<int K, typename T> T* vpp_get2(void const* o, std::size_t i, std::size_t j) VP_PURE;
template<int K, typename T> T* vpp_get3(void const* o, std::size_t i, std::size_t j, std::size_t k) VP_PURE;
namespace vp {
template<int K, int D, typename T> T const& get(V<K, D, T> const& v, std::size_t i, std::size_t j) { return *vpp_get2<K, T>(&v, i, j); }
template<int K, int D, typename T> T& get(V<K, D, T>& v, std::size_t i, std::size_t j) { return *vpp_get2<K, T>(&v, i, j); }
template<int K, int D, typename T> T const& get(V<K, D, T> const& v, std::size_t i, std::size_t j, std::size_t k) { return *vpp_get3<K, T>(&v, i, j, k); }
template<int K, int D, typename T> T& get(V<K, D, T>& v, std::size_t i, std::size_t j, std::size_t k) { return *vpp_get3<K, T>(&v, i, j, k); }
template<int K, int D, typename T> T no_data_value(V<K, D, T> const& v) { return vpp_ndv<K, T>(&v); }
}
// The documented no-data value of a type: its largest value when unsigned, its smallest otherwise.
template<typename T> T marker() { return std::is_unsigned<T>::value ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); }
// An owner: policies with protected constructors are used as bases.
template<typename P> struct Own: P { template<typename... A> Own(A&&... a): P(a...) {} };
'''
P_ = 'fern/algorithm/policy/%s.h'
TYPES = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'float', 'double']
IDX = {0: ('', ''), 1: (', size_t i', 'i'), 2: (', size_t i, size_t j', 'i, j'), 3: (', size_t i, size_t j, size_t k', 'i, j, k')}


def all_laws():
    out = []
    for d, (sig, ix) in IDX.items():
        g = 'get(x%s)' % (', ' + ix if ix else '')
        n = ['0d', '1d', '2d', '3d'][d]
        for t in TYPES:
            V = 'vp::V<1, 1, %s>' % t
            # Detection by the value of the type: always with an element.
            if d:
                out.append(Law('DetectNoData<%s> %s' % (t, n), '%s const& x%s' % (V, sig), 'Own<DetectNoData<%s>> p(x); return p.is_no_data(%s);' % (V, ix), 'return %s == marker<%s>();' % (g, t), header=P_ % 'detect_no_data', ret='bool'))
                out.append(Law('MarkNoData<%s> %s' % (t, n), '%s& x%s' % (V, sig), 'Own<MarkNoData<%s>> p(x); p.mark_as_no_data(%s);' % (V, ix), '%s = marker<%s>();' % (g, t), header=P_ % 'mark_no_data'))
            out.append(Law('DetectNoDataByValue<%s> %s' % (t, n), '%s const& x, %s v%s' % (V, t, sig), 'DetectNoDataByValue<%s> p(x, v); return p.is_no_data(%s);' % (V, ix), 'return %s == v;' % g, header=P_ % 'detect_no_data_by_value', ret='bool'))
            out.append(Law('DetectNoDataByValue<%s> %s, value of the mask' % (t, n), '%s const& x%s' % (V, sig), 'DetectNoDataByValue<%s> p(x); return p.is_no_data(%s);' % (V, ix), 'return %s == no_data_value(x);' % g, header=P_ % 'detect_no_data_by_value', ret='bool'))
            out.append(Law('DetectNoDataByValue<%s> %s, copied' % (t, n), '%s const& x, %s v%s' % (V, t, sig), 'DetectNoDataByValue<%s> q(x, v); DetectNoDataByValue<%s> p(q); return p.is_no_data(%s);' % (V, V, ix), 'return %s == v;' % g, header=P_ % 'detect_no_data_by_value', ret='bool'))
            out.append(Law('MarkNoDataByValue<%s> %s' % (t, n), '%s& x, %s v%s' % (V, t, sig), 'Own<MarkNoDataByValue<%s>> p(x, v); p.mark_as_no_data(%s);' % (V, ix), '%s = v;' % g, header=P_ % 'mark_no_data_by_value'))
            out.append(Law('MarkNoDataByValue<%s> %s, value of the mask' % (t, n), '%s& x%s' % (V, sig), 'Own<MarkNoDataByValue<%s>> p(x); p.mark_as_no_data(%s);' % (V, ix), '%s = no_data_value(x);' % g, header=P_ % 'mark_no_data_by_value'))
        s = sig[2:]
        out.append(Law('SkipNoData %s' % n, s, 'SkipNoData p; return p.is_no_data(%s);' % ix, 'return false;', header=P_ % 'skip_no_data', ret='bool'))
        out.append(Law('AllNoData %s' % n, s, 'return AllNoData::is_no_data(%s);' % ix, 'return true;', header=P_ % 'all_no_data', ret='bool'))
        out.append(Law('DontMarkNoData %s' % n, s, 'DontMarkNoData p; p.mark_as_no_data(%s);' % ix, '', header=P_ % 'dont_mark_no_data'))
    for t in TYPES:
        h = 'fern/core/type_traits.h'
        out.append(Law('no_data_value<%s>' % t, '', 'return fern::no_data_value<%s>();' % t, 'return marker<%s>();' % t, header=h, ret=t))
        out.append(Law('is_no_data<%s>' % t, '%s v' % t, 'return fern::is_no_data(v);', 'return v == marker<%s>();' % t, header=h, ret='bool'))
        out.append(Law('set_no_data<%s>' % t, 'vp::V<0, 0, %s>& x' % t, 'fern::set_no_data(get(x));', 'get(x) = marker<%s>();' % t, header=h))
        out.append(Law('is_equal<%s>' % t, '%s a, %s b' % (t, t), 'return fern::is_equal(a, b);', 'return a == b;', header='fern/core/math.h', ret='bool'))
        out.append(Law('is_not_equal<%s>' % t, '%s a, %s b' % (t, t), 'return fern::is_not_equal(a, b);', 'return !(a == b);', header='fern/core/math.h', ret='bool'))
    for k in (1, 2, 3):
        ps = ', '.join('vp::ND<%d>' % i for i in range(1, k + 1))
        for i in range(k):
            out.append(Law('InputNoDataPolicies of %d, policy %d' % (k, i + 1), 'size_t i, ' + ', '.join('vp::ND<%d> const& p%d' % (j, j) for j in range(1, k + 1)),
                           'InputNoDataPolicies<%s> p(%s); return std::get<%d>(p).is_no_data(i);' % (ps, ', '.join('p%d' % j for j in range(1, k + 1)), i), 'return p%d.is_no_data(i);' % (i + 1), header=P_ % 'input_no_data_policies', ret='bool'))
    return out


def run(ctx):
    ctx.explanation = ('Every input and output no-data policy instantiated for every arithmetic value type and rank 0 to 3 over an opaque collection, compared with its definition: the element tested or marked and the value compared with or stored.')
    l = all_laws()
    laws.check(ctx, 'no-data policy', PRE, l, len(l))
