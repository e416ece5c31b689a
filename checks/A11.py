"""Domain policies accept exactly the documented domain."""
import laws
from laws import Law
LEVEL = 'other'
PRE = '''#include "probe.h"
#include <cmath>
#include "fern/algorithm/policy/policies.h"
using namespace fern::algorithm;
'''
E_ = 'fern/algorithm/algebra/elementary/%s.h'
T_ = 'fern/algorithm/trigonometry/%s.h'
PURE = ('remainder', 'remainderf', 'modf', 'modff', 'fmod', 'fmodf', 'trunc', 'truncf', 'floor', 'floorf', 'ceil', 'ceilf', 'round', 'roundf')


def pol(op, types, expr, header, names='a b'.split()):
    T = ', '.join(types)
    sig = ', '.join('%s %s' % (t, n) for t, n in zip(types, names))
    call = '%s::OutOfDomainPolicy<%s>::within_domain(%s)' % (op, T, ', '.join(names[:len(types)]))
    return Law('%s<%s>' % (op, T), sig, 'return %s;' % call, 'return %s;' % expr, header=header, ret='bool')


def all_laws():
    out = []
    F = ('double', 'float')
    for op in ('sqrt', 'log', 'log10', 'log2'): out += [pol(op, [t], 'a >= 0', E_ % op) for t in F]
    for t in F:
        out.append(pol('tgamma', [t], 'a >= 0 || std::trunc(a) != a', E_ % 'tgamma'))
        out.append(pol('factorial', [t], 'a >= 0 && std::trunc(a) == a', E_ % 'factorial'))
        out.append(pol('pow', [t, t], '!((a < 0 && !(std::trunc(b) == b)) || (a == 0 && b < 0))', E_ % 'pow'))
    for t in ('int32_t', 'int8_t', 'uint8_t', 'uint64_t', 'int64_t'): out.append(pol('factorial', [t], 'a >= 0', E_ % 'factorial'))
    for a, b in (('int32_t', 'int32_t'), ('uint8_t', 'uint8_t'), ('double', 'int16_t'), ('int64_t', 'float'), ('double', 'double'), ('int32_t', 'uint64_t')): out.append(pol('divide', [a, b], 'b != 0', E_ % 'divide'))
    for op in ('acos', 'asin'): out += [pol(op, [t], 'a >= -1 && a <= 1', T_ % op) for t in F + ('int32_t', 'int8_t')]
    for op in ('sin', 'cos'): out += [pol(op, [t], 'std::isfinite(a)', T_ % op) for t in F]
    out += [pol('tan', [t], 'std::isfinite(a) && !(std::remainder(a, static_cast<%s>(1.57079632679489661923132169163975144L)) == 0 && int64_t(a / static_cast<%s>(1.57079632679489661923132169163975144L)) %% 2 != 0)' % (t, t), T_ % 'tan') for t in F]
    D = 'fern/algorithm/policy/%s.h'
    for n, ts in (('unary', ['double']), ('binary', ['int32_t', 'double'])):
        sig = ', '.join('%s %s' % (t, x) for t, x in zip(ts, 'ab')); xs = ', '.join('ab'[:len(ts)])
        out.append(Law('%s::DiscardDomainErrors' % n, sig, 'return %s::DiscardDomainErrors<%s>::within_domain(%s);' % (n, ', '.join(ts), xs), 'return true;', header=D % 'discard_domain_errors', ret='bool'))
        out.append(Law('%s::DiscardRangeErrors' % n, sig + ', float r', 'return %s::DiscardRangeErrors<%s, float>::within_range(%s, r);' % (n, ', '.join(ts), xs), 'return true;', header=D % 'discard_range_errors', ret='bool'))
        out.append(Law('%s::DiscardRangeErrors of the result alone' % n, 'float r', 'return %s::DiscardRangeErrors<%s, float>::within_range(r);' % (n, ', '.join(ts)), 'return true;', header=D % 'discard_range_errors', ret='bool'))
    return out


def hooks(f): f.pure = PURE


def run(ctx):
    ctx.explanation = ('The domain policy of every named operation that has one, and the policies that accept everything, compared as decision tables over the operands (signs, zeros, whole numbers, infinities and NaN) with the documented domain.')
    laws.check(ctx, 'documented domain', PRE, all_laws(), 45, hooks=hooks)
