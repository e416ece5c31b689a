"""Named cell operations compute their documented function, with their policies."""
import re
import laws
from laws import Law
LEVEL = 'other'
PRE = '''#include "probe.h"
#include <cmath>
#include <cerrno>
#include "fern/core/data_customization_point/scalar.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/core/unary_local_operation.h"
#include "fern/algorithm/core/binary_local_operation.h"
using namespace fern::algorithm;
template<int K, typename T> using IN = vp::V<K, 0, T>;
template<typename T> using OUT = vp::V<0, 0, T>;
using ND1 = std::tuple<vp::ND<1>>;
using ND2 = std::tuple<vp::ND<1>, vp::ND<2>>;
using EP = SequentialExecutionPolicy;
'''
E_ = 'fern/algorithm/algebra/elementary/%s.h'
B_ = 'fern/algorithm/algebra/boole/%s.h'
T_ = 'fern/algorithm/trigonometry/%s.h'
S_ = 'fern/algorithm/statistic/%s.h'
ARITH = [('int32_t', 'int32_t'), ('uint8_t', 'uint8_t'), ('int16_t', 'int64_t'), ('uint64_t', 'uint64_t'), ('int32_t', 'double'), ('float', 'float'), ('float', 'double')]
NUMS = ['int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'float', 'double']
CMP = [('int32_t', 'int32_t'), ('uint8_t', 'uint8_t'), ('int8_t', 'int64_t'), ('float', 'int8_t'), ('double', 'double'), ('float', 'double')]
BOOL = [('bool', 'bool'), ('int32_t', 'int32_t'), ('uint8_t', 'int64_t'), ('double', 'double'), ('bool', 'int32_t')]
DISC1 = ('unary::DiscardDomainErrors', 'unary::DiscardRangeErrors')
DISC2 = ('binary::DiscardDomainErrors', 'binary::DiscardRangeErrors')


class Op:
    """name, namespace, header, type tuples, result type, reference statement
    over a (, b) and r, policies the caller gives (dom, rng)."""

    def __init__(self, name, ns, header, types, result, stmt, pols=(), more=()):
        self.more = more
        self.name, self.ns, self.header, self.types, self.result, self.stmt, self.pols = name, ns, header, types, result, stmt, pols

    def laws(self):
        out = []
        for ts in self.types:
            n = len(ts)
            R = self.result(ts)
            P = 'template<%s> struct Ref_%%s { template<typename R> void operator()(%s, R& r) const { %s; } };' % (
                ', '.join('typename T%d' % k for k in range(n)), ', '.join('T%d const& %s' % (k, 'ab'[k]) for k in range(n)), self.stmt)
            rid = '%s_%s_%s' % (self.name, '_'.join(ts), re.sub(r'\W', '_', R))
            pre = P % rid
            dom, rng = (DISC1, DISC2)[n - 1]
            if 'dom' in self.pols: dom = 'vp::Dom%d' % n
            if 'rng' in self.pols: rng = 'vp::Rng%d' % n
            given = ', '.join('vp::%s%d' % (p.capitalize(), n) for p in self.pols)
            args = ', '.join('IN<%d, %s> const& x%d' % (k + 1, t, k + 1) for k, t in enumerate(ts))
            xs = ', '.join('x%d' % (k + 1) for k in range(n))
            call = '%s::%s' % (self.ns, self.name)
            out.append(Law('%s<%s>(%s)' % (self.name, ','.join(ts), R), 'ND%d const& i, vp::OND& o, EP& ep, %s, OUT<%s>& r' % (n, args, R),
                           '%s%s(i, o, ep, %s, r);' % (call, '<%s>' % given if given else '', xs),
                           '%s_local_operation<Ref_%s, %s, %s>(i, o, ep, %s, r);' % (('unary', 'binary')[n - 1], rid, dom, rng, xs), header=self.header, top=pre))
            out += self.plain(ts, R, rid, xs, args, call)
        for ts in self.more:
            R = self.result(ts)
            out += self.plain(ts, R, None, 'x1, x2', ', '.join('IN<%d, %s> const& x%d' % (k + 1, t, k + 1) for k, t in enumerate(ts)), '%s::%s' % (self.ns, self.name))
        return out

    def plain(self, ts, R, rid, xs, args, call):
        n = len(ts)
        body = '%s q; Ref_%s<%s> f; f(get(x1)%s, q); get(r) = q;' % (R, rid, ', '.join(ts), ', get(x2)' if n == 2 else '')
        if rid is None: body = 'using R = %s; R r_; %s a = get(x1); %s b = get(x2); { auto& r = r_; %s; } get(r) = r_;' % (R, ts[0], ts[1], self.stmt)
        return [Law('%s<%s>(%s) without policies' % (self.name, ','.join(ts), R), 'EP& ep, %s, OUT<%s>& r' % (args, R), '%s(ep, %s, r);' % (call, xs), body, header=self.header)]


def same(ts): return ts[0]


def ops():
    A = 'algebra'
    out = []
    for n, o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/')):
        out.append(Op(n, A, E_ % n, ARITH, lambda ts, n=n: '%s::result_value_type<%s>' % (n, ', '.join(ts)), 'r = static_cast<R>(a) %s static_cast<R>(b)' % o, ('dom', 'rng') if n == 'divide' else ('rng',),
                      more=[(a, b) for a in NUMS for b in NUMS if (a, b) not in ARITH]))
    F = [('double', 'double'), ('float', 'float')]
    F1 = [('double',), ('float',)]
    out.append(Op('pow', A, E_ % 'pow', F, same, 'errno = 0; r = std::pow(a, b)', ('dom', 'rng')))
    for n, o in (('equal', '=='), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>=')):
        out.append(Op(n, A, E_ % n, [t for t in CMP if n != 'equal' or t[0] == t[1]], lambda ts: 'int32_t', 'r = (a %s b) ? 1 : 0' % o,
                      more=[(a, b) for a in NUMS for b in NUMS if (a, b) not in CMP and (n != 'equal' or a == b)]))
        out.append(Op(n, A, E_ % n, [('uint16_t', 'uint16_t')], lambda ts: 'bool', 'r = a %s b' % o))
    for n in ('ceil', 'floor', 'round', 'trunc'): out.append(Op(n, A, E_ % n, F1, same, 'r = std::%s(a)' % n))
    for n in ('sqrt', 'log', 'log10', 'log2'): out.append(Op(n, A, E_ % n, F1, same, 'r = std::%s(a)' % n, ('dom',)))
    out.append(Op('tgamma', A, E_ % 'tgamma', F1, same, 'r = std::tgamma(a)', ('dom', 'rng')))
    out.append(Op('factorial', A, E_ % 'factorial', F1 + [('int32_t',), ('uint8_t',), ('int64_t',)], same, 'r = static_cast<T0>(std::round(std::tgamma(a + T0(1))))', ('dom', 'rng')))
    out.append(Op('absolute', A, E_ % 'absolute', [('uint32_t',), ('uint8_t',)], same, 'r = a', ('rng',)))
    out.append(Op('absolute', A, E_ % 'absolute', [('int32_t',), ('int64_t',), ('double',), ('float',)], same, 'r = std::abs(a)', ('rng',)))
    out.append(Op('absolute', A, E_ % 'absolute', [('int8_t',), ('int16_t',)], same, 'r = static_cast<R>(std::abs(int(a)))', ('rng',)))
    for n, h, e in (('and_', 'and', 'a && b'), ('or_', 'or', 'a || b'), ('nor', 'nor', '!(a || b)'), ('xor_', 'xor', '(a ? true : false) != (b ? true : false)'), ('xnor', 'xnor', '(a ? true : false) == (b ? true : false)')):
        out.append(Op(n, A, B_ % h, BOOL, lambda ts: 'bool', 'r = (%s) ? true : false' % e))
        out.append(Op(n, A, B_ % h, BOOL[1:2], lambda ts: 'int32_t', 'r = (%s) ? 1 : 0' % e))
    out.append(Op('not_', A, B_ % 'not', [('bool',), ('int32_t',), ('double',)], lambda ts: 'bool', 'r = a ? false : true'))
    for n in ('acos', 'asin', 'cos', 'sin', 'tan', 'atan'): out.append(Op(n, 'trigonometry', T_ % n, F1, same, 'r = std::%s(a)' % n, () if n == 'atan' else ('dom',)))
    M = [('int32_t', 'int32_t'), ('uint8_t', 'uint8_t'), ('double', 'double'), ('float', 'float')]
    out.append(Op('binary_max', 'statistic', S_ % 'binary_max', M, same, 'r = a < b ? b : a'))
    out.append(Op('binary_min', 'statistic', S_ % 'binary_min', M, same, 'r = b < a ? b : a'))
    return out


def core_laws():
    out = []
    H = 'fern/algorithm/core/%s.h'
    for a, b in (('int32_t', 'int64_t'), ('bool', 'int8_t'), ('uint8_t', 'uint32_t'), ('double', 'double'), ('bool', 'double')):
        top = 'template<typename T0> struct Ref_cast_%s_%s { template<typename R> void operator()(T0 const& a, R& r) const { r = static_cast<R>(a); } };' % (a, b)
        out.append(Law('cast<%s>(%s)' % (a, b), 'ND1 const& i, vp::OND& o, EP& ep, IN<1, %s> const& x1, OUT<%s>& r' % (a, b), 'core::cast<vp::Rng1>(i, o, ep, x1, r);',
                       'unary_local_operation<Ref_cast_%s_%s, unary::DiscardDomainErrors, vp::Rng1>(i, o, ep, x1, r);' % (a, b), header=H % 'cast', top=top))
        out.append(Law('cast<%s>(%s) without policies' % (a, b), 'EP& ep, IN<1, %s> const& x1, OUT<%s>& r' % (a, b), 'core::cast(ep, x1, r);', '%s q = static_cast<%s>(get(x1)); get(r) = q;' % (b, b), header=H % 'cast'))
    for a, b in (('double', 'int8_t'), ('int64_t', 'uint8_t'), ('uint32_t', 'float')):      # no range policy is defined for these
        out.append(Law('cast<%s>(%s) without policies' % (a, b), 'EP& ep, IN<1, %s> const& x1, OUT<%s>& r' % (a, b), 'core::cast(ep, x1, r);', '%s q = static_cast<%s>(get(x1)); get(r) = q;' % (b, b), header=H % 'cast'))
    for t in ('int32_t', 'int8_t', 'double', 'uint8_t', 'uint64_t'):
        out.append(Law('sign<%s>' % t, '%s a' % t, 'return sign(a);', 'return 1;' if t[0] == 'u' else 'return a >= 0 ? 1 : -1;', header=H % 'sign', ret='int'))
    for t in ('int32_t', 'double', 'uint8_t'):
        g = '{ template<typename R> void operator()(R& r) const { r = R(1); } };'
        out.append(Law('defined<%s>' % t, 'ND1 const& i, EP& ep, OUT<%s>& r' % t, 'algebra::defined(i, ep, r);', 'get(r) = 0; if(!std::get<0>(i).is_no_data()) get(r) = 1;', header=B_ % 'defined'))
        out.append(Law('defined<%s> without policies' % t, 'EP& ep, OUT<%s>& r' % t, 'algebra::defined(ep, r);', 'get(r) = 0; get(r) = 1;', header=B_ % 'defined'))
    return out


def all_laws(): return [l for o in ops() for l in o.laws()] + core_laws()


def run(ctx):
    ctx.explanation = ('Every named cell operation of algebra, trigonometry and statistics that runs on the local operation engines, instantiated for representative value types, with and without policies: '
                       'compared with a reference kernel run by the same engine, for every no-data, domain and range verdict and every ordering of the operands.')
    laws.check(ctx, 'named operation', PRE, all_laws(), 1071)
