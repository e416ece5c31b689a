"""Collections describe, address and clone their cells consistently."""
import os
import build, laws, witness
from laws import Law
from witness import W
LEVEL = 'other'
PRE = '''#include "probe.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_customization_point/raster.h"
using namespace fern;
// The stand-in of the arrays' storage: the cells of a value of this shape.
template<typename T> void vpx_result(std::size_t, std::size_t, std::size_t, void const* cells, bool const* mask);
template<typename T> void vpx_transformation(std::size_t index, double);
void vpx_number(double);
template<typename T, std::size_t N> T* cells(std::size_t a, std::size_t b = 0, std::size_t c = 0) { return vpp_storage<T, N>(a, b, c); }
template<typename T> void fill_(T* p, std::size_t n, T v) { for(std::size_t i = 0; i < n; ++i) p[i] = v; }
template<typename T, std::size_t N> bool const* mask_of(Array<T, N> const&) { return nullptr; }
template<typename T, std::size_t N> bool const* mask_of(MaskedArray<T, N> const& a) { return a.mask().data(); }
template<typename A> void shape_of(A const& a, std::size_t n) { vpx_result<value_type<A>>(a.shape()[0], n > 1 ? a.shape()[1] : 0, n > 2 ? a.shape()[2] : 0, a.data(), mask_of(a)); }
template<typename A> void shape_of_mask(A const& a, std::size_t n) { auto const& m = a.mask(); vpx_result<bool>(m.shape()[0], n > 1 ? m.shape()[1] : 0, n > 2 ? m.shape()[2] : 0, m.data(), nullptr); }
template<typename A> void transformation_of(A const& a, std::size_t n) { if(n > 0) { vpx_transformation<A>(0, a.transformation()[0]); vpx_transformation<A>(1, a.transformation()[1]); } if(n > 1) { vpx_transformation<A>(2, a.transformation()[2]); vpx_transformation<A>(3, a.transformation()[3]); } if(n > 2) { vpx_transformation<A>(4, a.transformation()[4]); vpx_transformation<A>(5, a.transformation()[5]); } }
'''
H = 'fern/feature/core/data_customization_point/%s.h'
CLASSES = [('Array', 'array', False, False), ('MaskedArray', 'masked_array', True, False), ('Raster', 'raster', False, True), ('MaskedRaster', 'masked_raster', True, True)]


def shape(n): return ', '.join('x.shape()[%d]' % i if i < n else '0' for i in range(3))


def all_laws(ctx):
    out = []
    for C, f, masked, geo in CLASSES:
        h = H % f
        for n in (1, 2, 3):
            for T in ('bool', 'uint8_t', 'int32_t', 'int64_t', 'float', 'double'):
                X = '%s<%s, %d>' % (C, T, n)
                a = dict(header=h)
                out.append(Law('size(%s)' % X, '%s const& x' % X, 'return size(x);', 'return %s;' % ' * '.join('x.shape()[%d]' % i for i in range(n)), ret='size_t', **a))
                out.append(Law('size(%s, dimension)' % X, '%s const& x, size_t d' % X, 'return size(x, d);', 'return x.shape()[d];', ret='size_t', **a))
                out.append(Law('get(%s const)' % X, '%s const& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', ret='%s const*' % T, **a))
                out.append(Law('get(%s)' % X, '%s& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', ret='%s*' % T, **a))
                if n == 2: out.append(Law('index(%s)' % X, '%s const& x, size_t i, size_t j' % X, 'return index(x, i, j);', 'return i * x.shape()[1] + j;', ret='size_t', **a))
                for U in ('bool', 'uint8_t', 'int32_t', 'float', 'double'):
                    s = ', '.join('x.shape()[%d]' % i for i in range(n))
                    num = ' * '.join('x.shape()[%d]' % i for i in range(n))
                    for v in (False, True):
                        args = 'x, v' if v else 'x'
                        ref = 'fill_<%s>(cells<%s, %d>(%s), %s, %s); ' % (U, U, n, s, num, 'v' if v else '0')
                        if masked: ref += 'fill_<bool>(cells<bool, %d>(%s), %s, false); ' % (n, s, num)
                        ref += 'vpx_result<%s>(%s, cells<%s, %d>(%s), %s); ' % (U, shape(n), U, n, s, 'cells<bool, %d>(%s)' % (n, s) if masked else 'nullptr')
                        if masked: ref += 'vpx_result<bool>(%s, cells<bool, %d>(%s), nullptr); ' % (shape(n), n, s)
                        impl = 'auto r = clone<%s>(%s); shape_of(r, %d); ' % (U, args, n)
                        if masked: impl += 'shape_of_mask(r, %d); ' % n
                        if geo:
                            impl += 'transformation_of(r, %d);' % n
                            ref += 'transformation_of_source<%s<%s, %d>>(x, %d);' % (C, U, n, n)
                        out.append(Law('clone<%s>(%s%s)' % (U, X, ', value' if v else ''), '%s const& x, %s v' % (X, U), impl, ref, **a))
        if geo:
            for T in ('int32_t', 'double'):
                X = '%s<%s, 2>' % (C, T)
                out.append(Law('cell_size(%s, 0)' % X, '%s const& x' % X, 'return cell_size(x, 0);', 'return x.transformation()[1];', header=h, ret='double'))
                out.append(Law('cell_size(%s, 1)' % X, '%s const& x' % X, 'return cell_size(x, 1);', 'return x.transformation()[3];', header=h, ret='double'))
                out.append(Law('cell_area(%s)' % X, '%s const& x' % X, 'return cell_area(x);', 'return x.transformation()[1] * x.transformation()[3];', header=h, ret='double'))
    for T in ('int32_t', 'double'):
        X = 'MaskedRaster<%s, 2>' % T
        out.append(Law('set_transformation(%s)' % X, 'vp::V<0, 0, double>& y, %s& x, size_t i, double v' % X, 'set_transformation(x, i, v); vpx_number(x.transformation()[i]);', 'x.transformation()[i] = v; vpx_number(v);', header=H % 'masked_raster'))
        out.append(Law('data(%s)' % X, '%s& x' % X, 'return data(x);', 'return x.data();', header=H % 'masked_raster', ret='%s*' % T))
        for n in (1, 2, 3):
            X = 'ArrayReference<%s, %d>' % (T, n); h = H % 'array_reference'
            out.append(Law('size(%s)' % X, '%s const& x' % X, 'return size(x);', 'return %s;' % ' * '.join('x.shape()[%d]' % i for i in range(n)), header=h, ret='size_t'))
            out.append(Law('size(%s, dimension)' % X, '%s const& x, size_t d' % X, 'return size(x, d);', 'return x.shape()[d];', header=h, ret='size_t'))
            out.append(Law('get(%s const)' % X, '%s const& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', header=h, ret='%s const*' % T))
            out.append(Law('get(%s)' % X, '%s& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', header=h, ret='%s*' % T))
        X = 'std::vector<%s>' % T; h = 'fern/core/data_customization_point/vector.h'
        out.append(Law('size(%s)' % X, '%s const& x' % X, 'return size(x);', 'return x.size();', header=h, ret='size_t'))
        out.append(Law('get(%s const)' % X, '%s const& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', header=h, ret='%s const*' % T))
        out.append(Law('get(%s)' % X, '%s& x, size_t i' % X, 'return &get(x, i);', 'return x.data() + i;', header=h, ret='%s*' % T))
        X = 'MaskedScalar<%s>' % T; h = H % 'masked_scalar'
        out.append(Law('get(%s const)' % X, '%s const& x' % X, 'return &get(x);', 'return &x.value();', header=h, ret='%s const*' % T))
        out.append(Law('get(%s)' % X, '%s& x' % X, 'return &get(x);', 'return &x.value();', header=h, ret='%s*' % T))
        for n in (2, 3):
            X = 'Point<%s, %d>' % (T, n); h = 'fern/core/data_customization_point/point.h'
            for i in range(n):
                out.append(Law('get<%d>(%s)' % (i, X), 'fern::Point<%s, %d>& x' % (T, n), 'return &get<%d>(x);' % i, 'return &x[%d];' % i, header=h, ret='%s*' % T))
                out.append(Law('get<%d>(%s const)' % (i, X), 'fern::Point<%s, %d> const& x' % (T, n), 'return &get<%d>(x);' % i, 'return &x[%d];' % i, header=h, ret='%s const*' % T))
            cs = ['a', 'b', 'c'][:n]
            out.append(Law('%s(coordinates)' % X, ', '.join('%s %s' % (T, c) for c in cs), 'fern::Point<%s, %d> p(%s); %s' % (T, n, ', '.join(cs), ' '.join('vpx_number(p[%d]);' % i for i in range(n))), ' '.join('vpx_number(%s);' % c for c in cs), header=h))
    for T in ('bool', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'float', 'double'):
        h = 'fern/core/data_customization_point/scalar.h'
        out.append(Law('get(%s)' % T, '%s& x' % T, 'return &get(x);', 'return &x;', header=h, ret='%s*' % T))
        out.append(Law('get(%s const)' % T, '%s const& x' % T, 'return &get(x);', 'return &x;', header=h, ret='%s const*' % T))
        out.append(Law('size(%s)' % T, '%s x' % T, 'return fern::size(x);', 'return 1;', header=h, ret='size_t'))
        out.append(Law('clone(%s)' % T, 'double x', 'return fern::clone<%s>(x);' % T, 'return 0;', header=h, ret=T))
        out.append(Law('clone(%s, value)' % T, 'double x, %s v' % T, 'return fern::clone<%s>(x, v);' % T, 'return v;', header=h, ret=T))
    return out


TOP = '''template<typename R, typename A> void transformation_of_source(A const& a, std::size_t n) { if(n > 0) { vpx_transformation<R>(0, a.transformation()[0]); vpx_transformation<R>(1, a.transformation()[1]); } if(n > 1) { vpx_transformation<R>(2, a.transformation()[2]); vpx_transformation<R>(3, a.transformation()[3]); } if(n > 2) { vpx_transformation<R>(4, a.transformation()[4]); vpx_transformation<R>(5, a.transformation()[5]); } }
'''


def witnesses():
    out = []
    def same(a, b): return 'std::is_same<%s, %s>::value' % (a, b)
    def traits(X, T, rank, masking, cat, clone):
        out.append(W('value_type of ' + X, same('value_type<%s>' % X, T)))
        out.append(W('reference of ' + X, same('reference<%s>' % X, T + '&')))
        out.append(W('const_reference of ' + X, same('const_reference<%s>' % X, T + ' const&')))
        out.append(W('rank of ' + X, 'fern::rank<%s>() == %d' % (X, rank)))
        if masking is not None: out.append(W('is_masking of ' + X, 'fern::is_masking<%s>::value == %s' % (X, 'true' if masking else 'false')))
        if cat: out.append(W('category of ' + X, same('argument_category<%s>' % X, cat)))
        if clone: out.append(W('CloneT of ' + X, same('CloneT<%s, uint8_t>' % X, clone)))
    for T in ('int32_t', 'double', 'uint8_t'):
        traits(T, T, 0, False, 'scalar_tag', 'uint8_t')
        traits('MaskedScalar<%s>' % T, T, 0, True, 'scalar_tag', 'MaskedScalar<uint8_t>')
        traits('std::vector<%s>' % T, T, 1, False, 'array_1d_tag', 'std::vector<uint8_t>')
        for n in (1, 2, 3):
            for C, f, masked, geo in CLASSES:
                # Raster says that it is masking although it has no mask: not part of the property
                traits('%s<%s, %d>' % (C, T, n), T, n, None if C == 'Raster' else masked, '%s_%dd_tag' % ('raster' if geo else 'array', n), '%s<uint8_t, %d>' % (C, n))
    for a, b in (('array_1d_tag', 'collection_tag'), ('array_2d_tag', 'collection_tag'), ('array_3d_tag', 'collection_tag'), ('raster_1d_tag', 'array_1d_tag'), ('raster_2d_tag', 'array_2d_tag'), ('raster_3d_tag', 'array_3d_tag')):
        out.append(W('%s is a %s' % (a, b), 'std::is_base_of<%s, %s>::value' % (b, a)))
    return out


def flags(): return ['-I', os.path.join(build.VERIF, 'shim_array')]


def run(ctx):
    ctx.explanation = ('size, index, get, clone, cell_size, cell_area and the traits of every collection shipped with fern, over arrays whose storage is an opaque function of element type and shape, compared with their definition.')
    l = all_laws(ctx)
    laws.check(ctx, 'customization point', PRE + TOP, l, len(l), flags=flags())
    w = witnesses()
    witness.check(ctx, 'traits', PRE.replace('vpp_storage<T, N>(a, b, c)', 'nullptr').replace('#include "probe.h"', '#include "fern/feature/core/data_type_traits/masked_raster.h"'), w, len(w), 'source/fern/feature/core/data_type_traits')
