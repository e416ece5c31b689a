"""Result types follow the documented rules."""
import witness
from witness import W
LEVEL = 'other'
INTS = ['int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
FLOATS = ['float', 'double']
NUMS = INTS + FLOATS
PRE = '''#include <type_traits>
#include <vector>
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/core/base_class.h"
#include "fern/algorithm/core/result_type.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
using namespace fern;
namespace fa = fern::algorithm;
template<typename T> using vec = std::vector<T>;
template<typename T> using a1 = Array<T, 1>; template<typename T> using a2 = Array<T, 2>; template<typename T> using a3 = Array<T, 3>;
template<typename T> using ma1 = MaskedArray<T, 1>; template<typename T> using ma2 = MaskedArray<T, 2>; template<typename T> using ma3 = MaskedArray<T, 3>;
template<typename T> using r2 = Raster<T, 2>; template<typename T> using mr2 = MaskedRaster<T, 2>;
template<typename T> using ms = MaskedScalar<T>; template<typename T> using plain = T;
struct T1 {}; struct T2 {}; struct D1: T1 {}; struct D12: T1, T2 {}; struct D2: T2 {};
'''


def bits(t): return 32 if t == 'float' else 64 if t == 'double' else int(''.join(c for c in t if c.isdigit()))


def result(a, b):
    if a == b: return a
    fs = [t for t in (a, b) if t in FLOATS]
    if fs: return max(fs, key=bits)
    if a[0] == b[0]: return max((a, b), key=bits)
    u, s = (a, b) if a[0] == 'u' else (b, a)
    return 'int%d_t' % max(min(bits(u) * 2, 64), bits(s))


def same(a, b): return 'std::is_same<%s, %s>::value' % (a, b)


def witnesses():
    out = []
    for a in NUMS:
        for b in NUMS:
            r = result(a, b)
            out.append(W('ResultValue<%s, %s>' % (a, b), same('fa::ResultValue<%s, %s>::type' % (a, b), r)))
            out.append(W('result_type<%s, %s>' % (a, b), same('fa::result_type<%s, %s>' % (a, b), r)))
            for o in ('add', 'subtract', 'multiply', 'divide'):
                out.append(W('%s::result_value_type<%s, %s>' % (o, a, b), same('fa::%s::result_value_type<%s, %s>' % (o, a, b), r)))
                out.append(W('%s::result_type<%s, %s>' % (o, a, b), same('fa::%s::result_type<%s, %s>' % (o, a, b), r)))
    out.append(W('ResultValue<bool, bool>', same('fa::ResultValue<bool, bool>::type', 'bool')))
    cont = ['vec', 'a1', 'a2', 'a3', 'ma1', 'ma2', 'ma3', 'r2', 'mr2']
    for ta, tb in (('int32_t', 'int32_t'), ('uint8_t', 'int8_t'), ('float', 'int64_t'), ('uint32_t', 'double')):
        r = result(ta, tb)
        for ca in cont + ['ms', 'plain']:
            for cb in cont + ['ms', 'plain']:
                c = ca if ca in cont else cb if cb in cont else 'ms' if 'ms' in (ca, cb) else 'plain'
                x, y = '%s<%s>' % (ca, ta), '%s<%s>' % (cb, tb)
                if c == 'plain': continue
                out.append(W('result_type<%s, %s>' % (x, y), same('fa::result_type<%s, %s>' % (x, y), '%s<%s>' % (c, r))))
                if ca != cb or ca in cont[:3]:
                    out.append(W('multiply::result_value_type<%s, %s>' % (x, y), same('fa::multiply::result_value_type<%s, %s>' % (x, y), r)))
                    for o in ('add', 'subtract', 'multiply', 'divide'): out.append(W('%s::result_type<%s, %s>' % (o, x, y), same('fa::%s::result_type<%s, %s>' % (o, x, y), '%s<%s>' % (c, r))))
        out.append(W('Result<vec<%s>, %s, int8_t>' % (ta, tb), same('fa::Result<vec<%s>, %s, int8_t>::type' % (ta, tb), 'vec<int8_t>')))
        out.append(W('Result<%s, ma2<%s>, float>' % (ta, tb), same('fa::Result<%s, ma2<%s>, float>::type' % (ta, tb), 'ma2<float>')))
    for ps, r in (('D1, T1', 'T1'), ('D1, T2', 'D1'), ('D1, T2, T1', 'T1'), ('D12, T1, T2', 'T1'), ('D12, T2, T1', 'T2'), ('D2, T1, D1', 'D2'), ('T1, T1', 'T1'), ('D2, T1, D1, T2', 'T2')):
        out.append(W('base_class<%s>' % ps, same('base_class<%s>' % ps, r)))
    return out


def run(ctx):
    ctx.explanation = ('The table of result types of the documentation written out as static assertions over every pair of arithmetic value types and every pair of supported containers, for the template itself and for the four arithmetic operations; they are type checked, not run.')
    w = witnesses()
    witness.check(ctx, 'result type', PRE, w, len(w), 'source/fern/algorithm/core/result_type.h')
