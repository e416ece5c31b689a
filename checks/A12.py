"""Range policies reject exactly the results that do not fit."""
import math
import laws
from laws import Law
LEVEL = 'other'
PRE = '''#include "probe.h"
#include <cmath>
#include <cerrno>
#include "fern/core/data_customization_point/scalar.h"
#include "fern/algorithm/policy/policies.h"
using namespace fern::algorithm;
'''
E_ = 'fern/algorithm/algebra/elementary/%s.h'
INTS = ['int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
FLOATS = ['float', 'double']
OPS = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b}


def bits(t): return int(''.join(c for c in t if c.isdigit()))
def signed(t): return not t.startswith('u')
def span(t): return (-(1 << (bits(t) - 1)), (1 << (bits(t) - 1)) - 1) if signed(t) else (0, (1 << bits(t)) - 1)


def result(a, b):
    """The documented value type of combining two types."""
    if a in FLOATS or b in FLOATS:
        f = [t for t in (a, b) if t in FLOATS]
        return 'double' if 'double' in f else 'float'
    if signed(a) == signed(b): return a if bits(a) >= bits(b) else b
    u, s = (a, b) if not signed(a) else (b, a)
    return 'int%d_t' % max(min(bits(u) * 2, 64), bits(s))


def rep(v, w):
    v %= 1 << w
    return v - (1 << w) if v >= 1 << (w - 1) else v


def into(v, t):
    lo, hi = span(t)
    return v if lo <= v <= hi else (rep(v, bits(t)) if signed(t) else v % (1 << bits(t)))


def points(t, others):
    lo, hi = span(t)
    p = set(range(-3, 4))
    for x in others:
        for e in span(x):
            for d in range(-2, 3):
                p |= {e + d, -e + d, e // 2 + d, -(e // 2) + d}
    for k in (bits(t) // 2, bits(t) // 2 - 1): p |= {1 << k, -(1 << k), (1 << k) + 1, (1 << k) - 1}
    return sorted(x for x in p if lo <= x <= hi)


def int_law(op, a, b):
    R = result(a, b); lo, hi = span(R); f = OPS[op]

    def cases():
        for y in points(b, {a, b, R}):
            xs = set(points(a, {a, b, R}))
            z = into(y, R)
            if op == 'multiply' and z:
                for e in (lo, hi):
                    for d in range(-2, 3): xs |= {int(e / z) + d, e // z + d}
            if op != 'multiply':
                for e in (lo, hi):
                    for d in range(-2, 3): xs.add((e - z if op == 'add' else e + z) + d)
            for x in sorted(xs):
                if not span(a)[0] <= x <= span(a)[1]: continue
                r = into(f(into(x, R), z), R)
                yield {0: rep(x, bits(a)), 1: rep(y, bits(b)), 2: rep(r, bits(R))}

    def expect(c):
        x, y = into(c[0], a) if not signed(a) else c[0], into(c[1], b) if not signed(b) else c[1]
        exact = lo <= f(x, y) <= hi
        converted = lo <= f(into(x, R), into(y, R)) <= hi
        return exact if exact == converted else None        # the operand itself does not fit the result type: undocumented
    return Law('%s<%s, %s>' % (op, a, b), '%s a, %s b, %s r' % (a, b, R), 'return %s::OutOfRangePolicy<%s, %s, %s>::within_range(a, b, r);' % (op, a, b, R), '', header=E_ % op, cases=cases, expect=expect)


def float_cases(n, t):
    def cases():
        for r in (0.0, 1.5, -2.0, 1e30, -1e30, math.inf, -math.inf, math.nan) + ((1e300, -1e300) if t == 'double' else ()): yield {0: 3.0, 1: -2.0, n: r}
    return cases


def float_law(op, a, b):
    R = result(a, b); n = 2
    mixed = (a in INTS or b in INTS) and op in ('add', 'subtract')
    def expect(c):
        fin = math.isfinite(c[2])
        return None if mixed and not fin else fin       # finite operands of these always give a finite result
    return Law('%s<%s, %s>' % (op, a, b), '%s a, %s b, %s r' % (a, b, R), 'return %s::OutOfRangePolicy<%s, %s, %s>::within_range(a, b, r);' % (op, a, b, R), '', header=E_ % op, cases=float_cases(2, R), expect=expect)


def unary(op, t, ref): return Law('%s<%s>' % (op, t), '%s a, %s r' % (t, t), 'return %s::OutOfRangePolicy<%s, %s>::within_range(a, r);' % (op, t, t), 'return %s;' % ref, header=E_ % op, ret='bool')


def all_laws():
    out = []
    for op in OPS:
        out += [int_law(op, a, b) for a in INTS for b in INTS]
        out += [float_law(op, a, b) for a in FLOATS for b in FLOATS]
        out += [float_law(op, a, b) for a, b in (('float', 'int32_t'), ('double', 'uint8_t'), ('int64_t', 'double'), ('uint16_t', 'float'))]
    for op, t in (('divide', 'float'), ('divide', 'double')): out.append(float_law(op, t, t))
    out += [float_law('divide', a, b) for a, b in (('float', 'double'), ('int32_t', 'double'), ('float', 'uint16_t'))]
    for t in FLOATS:
        out.append(float_law('pow', t, t))
        out += [unary('tgamma', t, 'std::isfinite(r)'), unary('factorial', t, 'std::isfinite(r)'), unary('absolute', t, 'true')]
    for t in INTS: out.append(unary('absolute', t, 'a != std::numeric_limits<%s>::min()' % t if signed(t) else 'true'))
    for t in ('int8_t', 'int32_t', 'uint16_t', 'uint64_t'):
        out.append(unary('factorial', t, 'std::round(std::tgamma(a + 1)) <= std::numeric_limits<%s>::max()' % t))
    for a, b in (('int8_t', 'int8_t'), ('int8_t', 'int64_t'), ('int32_t', 'int64_t'), ('uint8_t', 'uint32_t'), ('uint64_t', 'uint64_t'), ('double', 'double'), ('float', 'float'), ('bool', 'int8_t'), ('bool', 'double'), ('bool', 'uint64_t')):
        if a == 'bool' and b[-2:] == '_t': continue
        out.append(Law('cast<%s, %s>' % (a, b), '%s a, %s r' % (a, b), 'return cast::OutOfRangePolicy<%s, %s>::within_range(a, r);' % (a, b), 'return true;', header='fern/algorithm/core/cast.h', ret='bool'))
    for t in FLOATS:
        for n in (1, 2):
            xs = ['%s %s' % (t, x) for x in 'ab'[:n]]
            out.append(Law('DetectOutOfRangeByErrno<%s>' % ', '.join([t] * (n + 1)), ', '.join(xs) + ', %s r' % t,
                           'return DetectOutOfRangeByErrno<%s>::within_range(%s, r);' % (', '.join([t] * (n + 1)), ', '.join('ab'[:n])), 'return errno != ERANGE;', header='fern/algorithm/policy/detect_out_of_range_by_errno.h', ret='bool'))
    return out


def run(ctx):
    ctx.explanation = ('The range policy of add, subtract and multiply for every pair of integer types: its verdict, a table of comparisons between operands, result and quotients of the limits, is evaluated in every region '
                       'those comparisons cut the operands into (limits, zero, halves and their neighbours) and compared with the exact answer; the policies for floating point, absolute, divide, pow, gamma and factorial compared with their definition.')
    laws.check(ctx, 'range verdict', PRE, all_laws(), 253)
