"""What is read from a GDAL raster, and what happens when it cannot be."""
import os
import build, laws, I01
from laws import Law
LEVEL = 'other'
TYPES = (('uint8_t', 'GDT_Byte', 1), ('uint16_t', 'GDT_UInt16', 1), ('int16_t', 'GDT_Int16', 1), ('uint32_t', 'GDT_UInt32', 1), ('int32_t', 'GDT_Int32', 1), ('float', 'GDT_Float32', 0), ('double', 'GDT_Float64', 0))
PRE = '''#include <cstddef>
#include <cstdint>
#include <cassert>
#include <cmath>
#include <string>
#include <filesystem>
#include <utility>
#include <type_traits>
#include "fern/core/io_error.h"
#include "fern/core/argument_categories.h"
#include "fern/core/data_name.h"
#include "fern/core/data_type_traits.h"
#include "fern/io/core/file.h"
#include "fern/io/gdal/dataset.h"
#include "fern/io/gdal/dataset_handle.cc"
void vp_run(int); void vp_pointer(void*); void vp_mark(std::size_t);
template<typename T> T vpp_cell(void const*, std::size_t) __attribute__((nothrow, const));
template<typename T> void* vpp_data(void const*) __attribute__((nothrow, const));
namespace vp {
template<typename T> struct Raster { char opaque; };
struct Policy { void mark_as_no_data(std::size_t i) { vp_mark(i); } void mark_as_no_data(std::size_t i, std::size_t j) { vp_mark(i * static_cast<std::size_t>(vpp_nr_cols()) + j); } };
template<typename T> std::size_t size(Raster<T> const&, std::size_t d) { return d == 0 ? vpp_nr_rows() : vpp_nr_cols(); }
template<typename T> std::size_t size(Raster<T> const&) { return static_cast<std::size_t>(vpp_nr_rows()) * static_cast<std::size_t>(vpp_nr_cols()); }
template<typename T> std::size_t index(Raster<T> const&, std::size_t i, std::size_t j) { return i * static_cast<std::size_t>(vpp_nr_cols()) + j; }
template<typename T> T get(Raster<T> const& r, std::size_t i) { return vpp_cell<T>(&r, i); }
template<typename T> T* data(Raster<T>& r) { return static_cast<T*>(vpp_data<T>(&r)); }
}
namespace fern {
template<typename T> struct DataTypeTraits<vp::Raster<T>> { using argument_category = raster_2d_tag; template<typename U> struct Clone { using type = vp::Raster<U>; }; using value_type = T; using reference = T&; using const_reference = T const&; static bool const is_masking = false; static std::size_t const rank = 2u; };
}
'''
FLAGS = I01.FLAGS
DS = 'fern/io/gdal/dataset.cc'; RH = 'fern/io/gdal/read.h'
ONLY = r'^GDAL(Open|Close|ReleaseDataset|RasterBand::(RasterIO|Set|Write|ReadBlock))|file_exists|IOError::IOError|__cxa_throw|vp_'
KEEP = ('^std::__cxx11::to_string', '^std::__cxx11::basic_string', '^fern::Messages::', '^fern::IOError::IOError', '^std::filesystem')


def all_laws():
    out = []
    fail = lambda what, *args, name='name': 'throw fern::IOError(' + name + ', fern::Exception::messages()%s);' % ('.format_message(fern::MessageId::%s, %s)' % (what, ', '.join(args)) if args else '[fern::MessageId::%s]' % what)
    opened = 'if(!fern::io::file_exists(name)) %s auto d = static_cast<GDALDataset*>(GDALOpen(name.c_str(), mode)); if(d == nullptr) { if(mode == GA_ReadOnly) %s else %s } ' % (fail('DOES_NOT_EXIST'), fail('CANNOT_BE_READ'), fail('CANNOT_BE_WRITTEN'))
    named = 'std::string const name{n.database_pathname().native_string()}; '
    up = 'GDALAccess const mode = update ? GA_Update : GA_ReadOnly; '
    ro = 'GDALAccess const mode = GA_ReadOnly; '
    N = 'fern::io::gdal::'
    D = lambda *a, **k: out.append(Law(*a, header=DS, where='source/' + DS, **k))
    D('open by name', 'std::string const& name, bool update', 'GDALAccess mode = update ? GA_Update : GA_ReadOnly; auto h = %sopen_dataset(name, mode); vp_pointer(h.operator->());' % N, up + opened + 'vp_pointer(d); GDALClose(d);')
    D('open a data name', 'fern::DataName const& n, bool update', 'GDALAccess mode = update ? GA_Update : GA_ReadOnly; auto h = %sopen_dataset(n, mode); vp_pointer(h.operator->());' % N, up + named + opened + 'vp_pointer(d); GDALClose(d);')
    band = 'if(b > d->GetRasterCount()) %s ' % fail('DOES_NOT_CONTAIN_DATA', '"raster band " + std::to_string(b)', name='d->GetDescription()')
    D('raster band', 'fern::io::gdal::DatasetHandle& h, int b', 'return %sraster_band(h, b);' % N, 'auto d = h.operator->(); ' + band + 'return d->GetRasterBand(b);', ret='GDALRasterBand*')
    D('type of a dataset', 'fern::DataName const& n', 'return %sgdal_value_type(n);' % N, ro + named + opened + 'int const b = 1; ' + band + 'auto t = d->GetRasterBand(1)->GetRasterDataType(); GDALClose(d); return t;', ret='GDALDataType')
    for t, g, integral in TYPES:
        same = 'static_cast<double>(v) == nd' if integral else '(nd != nd ? v != v : v == static_cast<%s>(nd))' % t
        r = ro + named + opened + 'int const b = 1; ' + band + 'auto p = d->GetRasterBand(1); '
        r += 'if(p->GetRasterDataType() != %s) %s ' % (g, fail('UNSUPPORTED_VALUE_TYPE', 'n.data_pathname().generic_string()', 'GDALGetDataTypeName(p->GetRasterDataType())'))
        r += 'if(p->RasterIO(GF_Read, 0, 0, vpp_nr_cols(), vpp_nr_rows(), vp::data(to), vpp_nr_cols(), vpp_nr_rows(), %s, 0, 0) != CE_None) %s ' % (g, fail('CANNOT_BE_READ'))
        r += 'int has; double const nd = p->GetNoDataValue(&has); if(has) %s GDALClose(d);'
        loops = ('for(std::size_t i = 0; i < vp::size(to, 0); ++i) for(std::size_t j = 0; j < vp::size(to, 1); ++j) { %s v = vp::get(to, vp::index(to, i, j)); if(%s) vp_mark(vp::index(to, i, j)); }' % (t, same), 'for(std::size_t i = 0; i < vp::size(to); ++i) { %s v = vp::get(to, i); if(%s) vp_mark(i); }' % (t, same))
        out.append(Law('read a raster of %s' % t, 'fern::DataName const& n, vp::Raster<%s>& to' % t, 'vp::Policy p; %sread(p, n, to);' % N, [r % l for l in loops], header=RH, where='source/fern/io/gdal/detail/read.h', top='#ifndef VP_DS\n#define VP_DS\n#include "%s"\n#endif\n' % DS))
    out.append(Law('file_exists', 'std::string const& name', 'return fern::io::file_exists(name);', 'return std::filesystem::exists(std::filesystem::path(name));', header='fern/io/core/file.cc', where='source/fern/io/core/file.cc', ret='bool'))
    return out


def run(ctx):
    ctx.explanation = 'The calls of GDAL, the exceptions thrown, the cells marked and what is returned are compared with what there should be, on every path.'
    laws.check(ctx, 'reading', PRE, all_laws(), 10, flags=FLAGS, irx_args=KEEP, exceptions=True, only=ONLY)
