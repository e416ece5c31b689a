"""Arrays hold the values, and masked values the mask, they were given."""
import laws
from laws import Law
import F01
LEVEL = 'other'
TOP = '''
void vpx_flag(bool); void vpx_shape(std::size_t, std::size_t, std::size_t);
template<typename A> void array_is(A const& a, std::size_t n) { vpx_result<value_type<A>>(a.shape()[0], n > 1 ? a.shape()[1] : 0, n > 2 ? a.shape()[2] : 0, a.data(), nullptr); }
'''
A_, M_, S_ = 'fern/feature/core/array.h', 'fern/feature/core/masked_array.h', 'fern/feature/core/masked_scalar.h'


def all_laws():
    out = []
    for T in ('int32_t', 'double'):
        for v in (True, False):
            w = 'v' if v else '0'
            for C, h in (('Array', A_), ('MaskedArray', M_)):
                m1 = 'array_is(a.mask(), 1);' if C == 'MaskedArray' else ''
                def fillm(n, s): return 'fill_<bool>(cells<bool, %d>(%s), %s, false); ' % (n, ', '.join(s), ' * '.join(s)) if C == 'MaskedArray' else ''
                def ism(n, s): return 'vpx_result<bool>(%s, cells<bool, %d>(%s), nullptr);' % (', '.join((s + ['0', '0'])[:3]), n, ', '.join(s)) if C == 'MaskedArray' else ''
                def law(name, n, sizes, ctor, sig):
                    s = list(sizes)
                    out.append(Law('%s<%s, %d>(%s)' % (C, T, n, name), sig, '%s<%s, %d> a(%s); array_is(a, %d); %s' % (C, T, n, ctor, n, m1.replace('1);', '%d);' % n)),
                                   'fill_<%s>(cells<%s, %d>(%s), %s, %s); ' % (T, T, n, ', '.join(s), ' * '.join(s), w) + fillm(n, s) + 'vpx_result<%s>(%s, cells<%s, %d>(%s), nullptr); ' % (T, ', '.join((s + ['0', '0'])[:3]), T, n, ', '.join(s)) + ism(n, s), header=h))
                comma = ', v' if v else ''
                vs = ', value' if v else ''
                law('size' + vs, 1, ['s'], 's' + comma, 'size_t s, %s v' % T)
                if C == 'Array': law('size1, size2' + vs, 2, ['s', 't'], 's, t' + comma, 'size_t s, size_t t, %s v' % T)
                for n in (1, 2, 3):
                    s = ['s', 't', 'u'][:n]
                    law('extents' + vs, n, s, 'extents' + ''.join('[%s]' % x for x in s) + comma, ', '.join('size_t ' + x for x in s) + ', %s v' % T)
        for C, h in (('Array', A_), ('MaskedArray', M_)):
            mask1 = ' array_is(a.mask(), 1);' if C == 'MaskedArray' else ''
            mref1 = 'fill_<bool>(cells<bool, 1>(n), n, false); ' if C == 'MaskedArray' else ''
            mout1 = ' vpx_result<bool>(n, 0, 0, cells<bool, 1>(n), nullptr);' if C == 'MaskedArray' else ''
            out.append(Law('%s<%s, 1>(initializer list)' % (C, T), 'std::initializer_list<%s> const& l' % T, '%s<%s, 1> a(l); array_is(a, 1);%s' % (C, T, mask1),
                           'size_t n = l.size(); %s* p = cells<%s, 1>(n); for(size_t i = 0; i < n; ++i) p[i] = l.begin()[i]; %svpx_result<%s>(n, 0, 0, p, nullptr);%s' % (T, T, mref1, T, mout1), header=h))
            mask2 = ' array_is(a.mask(), 2);' if C == 'MaskedArray' else ''
            mref2 = 'fill_<bool>(cells<bool, 2>(n, m), n * m, false); ' if C == 'MaskedArray' else ''
            mout2 = ' vpx_result<bool>(n, m, 0, cells<bool, 2>(n, m), nullptr);' if C == 'MaskedArray' else ''
            out.append(Law('%s<%s, 2>(rows)' % (C, T), 'std::initializer_list<std::initializer_list<%s>> const& l' % T, '%s<%s, 2> a(l); array_is(a, 2);%s' % (C, T, mask2),
                           'size_t n = l.size(), m = l.begin()->size(); %s* p = cells<%s, 2>(n, m); for(auto r = l.begin(); r != l.end(); ++r) for(auto c = r->begin(); c != r->end(); ++c) *p++ = *c; %svpx_result<%s>(n, m, 0, cells<%s, 2>(n, m), nullptr);%s' % (T, T, mref2, T, T, mout2), header=h))
        out.append(Law('Array<%s, 1>(vector)' % T, 'std::vector<%s> const& l' % T, 'Array<%s, 1> a(l); array_is(a, 1);' % T,
                       'size_t n = l.size(); std::copy(l.begin(), l.end(), cells<%s, 1>(n)); vpx_result<%s>(n, 0, 0, cells<%s, 1>(n), nullptr);' % (T, T, T), header=A_))
        out.append(Law('MaskedArray<%s, 1>(vector of masked values)' % T, 'std::vector<MaskedScalar<%s>> const& l' % T, 'MaskedArray<%s, 1> a(l); array_is(a, 1); array_is(a.mask(), 1);' % T,
                       'size_t n = l.size(); %s* p = cells<%s, 1>(n); bool* q = cells<bool, 1>(n); fill_<%s>(p, n, 0); fill_<bool>(q, n, false); size_t i = 0; for(auto it = l.begin(); it != l.end(); ++it, ++i) { p[i] = it->value(); q[i] = it->mask(); } vpx_result<%s>(n, 0, 0, p, nullptr); vpx_result<bool>(n, 0, 0, q, nullptr);' % (T, T, T, T), header=M_))
        for n in (1, 2, 3):
            X = 'Array<%s, %d>' % (T, n)
            num = ' * '.join('x.shape()[%d]' % i for i in range(n))
            out.append(Law('%s::fill' % X, '%s& x, %s v' % (X, T), 'x.fill(v);', 'fill_<%s>(x.data(), %s, v);' % (T, num), header=A_))
            out.append(Law('%s::num_elements' % X, '%s const& x' % X, 'return x.num_elements();', 'return %s;' % num, header=A_, ret='size_t'))
            out.append(Law('%s::num_dimensions' % X, '%s const& x' % X, 'return x.num_dimensions();', 'return %d;' % n, header=A_, ret='size_t'))
            out.append(Law('%s::size' % X, '%s const& x' % X, 'return x.size();', 'return x.shape()[0];', header=A_, ret='size_t'))
            X = 'MaskedArray<%s, %d>' % (T, n)
            a = dict(header=M_)
            out.append(Law('%s::has_masked_values' % X, '%s const& x' % X, 'return x.has_masked_values();', 'bool const* m = x.mask().data(); for(size_t i = 0; i < x.num_elements(); ++i) { if(m[i]) return true; } return false;', ret='bool', **a))
            out.append(Law('%s::set_mask(value)' % X, '%s& x, %s v' % (X, T), 'x.set_mask(v);', 'for(size_t i = 0; i < x.num_elements(); ++i) { if(x.data()[i] == v) x.mask().data()[i] = true; }', **a))
            out.append(Law('%s::mask_all' % X, '%s& x' % X, 'x.mask_all();', 'fill_<bool>(x.mask().data(), %s, true);' % num.replace('x.', 'x.mask().'), **a))
            for U in ('uint8_t', 'int32_t', 'uint64_t', 'int8_t'):
                Y = 'Array<%s, %d>' % (U, n)
                out.append(Law('%s::mask(%s)' % (X, Y), '%s const& x, %s& y' % (X, Y), 'x.mask(y);', 'for(size_t i = 0; i < x.num_elements(); ++i) y.data()[i] = x.mask().data()[i] ? %s(0) : %s(255);' % (U, U), **a))
                out.append(Law('%s::set_mask(%s)' % (X, Y), '%s& x, %s const& y' % (X, Y), 'x.set_mask(y);', 'for(size_t i = 0; i < x.num_elements(); ++i) { if(y.data()[i] == %s(0)) x.mask().data()[i] = true; }' % U, **a))
                out.append(Law('%s::set_mask(%s, value)' % (X, Y), '%s& x, %s const& y, %s v' % (X, Y, U), 'x.set_mask(y, v);', 'for(size_t i = 0; i < x.num_elements(); ++i) { if(y.data()[i] == v) x.mask().data()[i] = true; }', **a))
    for T in ('int32_t', 'double', 'uint8_t', 'int64_t'):
        X = 'MaskedScalar<%s>' % T; a = dict(header=S_)
        obs = ' vpx_number(x.value()); vpx_flag(x.mask());'
        exp = 'vpx_number(%s); vpx_flag(%s);'
        out.append(Law('%s()' % X, '', X + ' x;' + obs, exp % ('0', 'false'), **a))
        out.append(Law('%s(value)' % X, T + ' v', X + ' x(v);' + obs, exp % ('v', 'false'), **a))
        out.append(Law('%s(value, mask)' % X, T + ' v, bool m', X + ' x(v, m);' + obs, exp % ('v', 'm'), **a))
        out.append(Law('%s, copy' % X, T + ' v, bool m', X + ' y(v, m); ' + X + ' x(y);' + obs, exp % ('v', 'm'), **a))
        out.append(Law('%s, assigned from another' % X, T + ' v, bool m, ' + T + ' w, bool o', X + ' y(v, m); ' + X + ' x(w, o); x = y;' + obs, exp % ('v', 'm'), **a))
        out.append(Law('%s, assigned a value' % X, T + ' v, bool m, ' + T + ' w', X + ' x(v, m); x = w;' + obs, exp % ('w', 'false'), **a))
        out.append(Law('%s, written through value()' % X, T + ' v, bool m, ' + T + ' w', X + ' x(v, m); x.value() = w;' + obs, exp % ('w', 'm'), **a))
        out.append(Law('%s, written through mask()' % X, T + ' v, bool m, bool o', X + ' x(v, m); x.mask() = o;' + obs, exp % ('v', 'o'), **a))
        out.append(Law('%s, converted' % X, T + ' v, bool m', X + ' x(v, m); %s& r = x; %s const& c = static_cast<%s const&>(x); vpx_number(r); vpx_number(c);' % (T, T, X), 'vpx_number(v); vpx_number(v);', **a))
        out.append(Law('%s == %s' % (X, X), '%s v, bool m, %s w, bool o' % (T, T), X + ' x(v, m), y(w, o); return x == y;', 'return v == w && m == o;', ret='bool', **a))
    return out


def run(ctx):
    ctx.explanation = ('Constructors, masks and comparison of Array, MaskedArray and MaskedScalar, over arrays whose storage is an opaque function of element type and shape: the cells written, their values and the order of writes are compared with the definition, loops by their iteration count and generic iteration.')
    l = all_laws()
    laws.check(ctx, 'container law', F01.PRE + TOP, l, len(l), flags=F01.flags())
