"""What is read from a NetCDF dataset, and what happens when it cannot be."""
import os
import build, laws
from laws import Law
LEVEL = 'other'
PRE = '''#include <cstddef>
#include <cstdint>
#include <cassert>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <utility>
#include <type_traits>
#include <netcdf.h>
#include "fern/core/io_error.h"
#include "fern/core/argument_categories.h"
#include "fern/core/data_name.h"
#include "fern/core/data_type_traits.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/type_traits.h"
#include "fern/core/string.h"
#include "fern/io/core/file.h"
int vpp_ncid(char const*, int) __attribute__((nothrow, const)); int vpp_attid(int, int, char const*) __attribute__((nothrow, const)); std::size_t vpp_attlen(int, int, char const*) __attribute__((nothrow, const));
int vpp_varid(int, char const*) __attribute__((nothrow, const)); int vpp_vartype(int, int) __attribute__((nothrow, const)); int vpp_ndims(int, int) __attribute__((nothrow, const)); double vpp_double(int, int) __attribute__((nothrow, const));
extern "C" {
inline int vp_nc_open(char const* p, int m, int* id) { *id = vpp_ncid(p, m) & 0x7fffffff; return nc_open(p, m, nullptr); }
inline int vp_nc_inq_attid(int n, int v, char const* a, int* id) { if(id) *id = vpp_attid(n, v, a); return nc_inq_attid(n, v, a, nullptr); }
inline int vp_nc_inq_attlen(int n, int v, char const* a, std::size_t* l) { if(l) *l = vpp_attlen(n, v, a); return nc_inq_attlen(n, v, a, nullptr); }
inline int vp_nc_inq_varid(int n, char const* a, int* id) { if(id) *id = vpp_varid(n, a); return nc_inq_varid(n, a, nullptr); }
inline int vp_nc_inq_vartype(int n, int v, nc_type* t) { if(t) *t = vpp_vartype(n, v); return nc_inq_vartype(n, v, nullptr); }
inline int vp_nc_inq_varndims(int n, int v, int* d) { if(d) *d = vpp_ndims(n, v); return nc_inq_varndims(n, v, nullptr); }
inline int vp_nc_inq_var(int n, int v, char*, nc_type* t, int* d, int*, int*) { if(t) *t = vpp_vartype(n, v); if(d) *d = vpp_ndims(n, v); return nc_inq_varndims(n, v, nullptr); }
inline int vp_nc_get_var_double(int n, int v, double* x) { *x = vpp_double(n, v); return nc_get_var_double(n, v, nullptr); }
}
#define nc_open vp_nc_open
#define nc_inq_attid vp_nc_inq_attid
#define nc_inq_attlen vp_nc_inq_attlen
#define nc_inq_varid vp_nc_inq_varid
#define nc_inq_vartype vp_nc_inq_vartype
#define nc_inq_varndims vp_nc_inq_varndims
#define nc_inq_var vp_nc_inq_var
#define nc_get_var_double vp_nc_get_var_double
#include "fern/io/netcdf/core/dataset_handle.cc"
#include "fern/io/netcdf/core/dataset.cc"
void vp_run(int); void vp_string(std::string&); void vp_strings(std::vector<std::string>&); void vp_pointer(int); void vp_value(double); void vp_value(int);
namespace vp { struct Policy { void mark_as_no_data() { vp_run(-1); } }; }
'''
FLAGS = ('-isystem', '/usr/include/hdf5/serial')
N = 'fern::io::netcdf::'
CORE = 'fern/io/netcdf/core/'
ONLY = r'^nc_(open|close|get_var|get_att|inq_attlen)|file_exists|conforms_to_coards|contains_variable|variable_is_scalar|::variable_id|::value_type_id|::has_attribute|::conventions|fern::split|fern::strip|IOError::IOError|__cxa_throw|vp_(run|pointer|value|strings?)'
KEEP = ('^std::__cxx11::basic_string', '^fern::Messages::', '^fern::IOError::IOError', '^std::map', '^std::vector', '^std::find<', '^std::count<')


def all_laws():
    out = []
    fail = lambda what, *args, name='name': 'throw fern::IOError(' + name + ', fern::Exception::messages()%s);' % ('.format_message(fern::MessageId::%s, %s)' % (what, ', '.join(args)) if args else '[fern::MessageId::%s]' % what)
    H = 'fern::io::netcdf::DatasetHandle const& h'
    L = lambda n, h, sig, i, r, ret='void', **k: out.append(Law(n, sig, i, r, header=CORE + h, where='source/' + CORE + h, ret=ret, **k))
    L('open', 'dataset.h', 'std::string const& name, int mode', 'auto h = %sopen_dataset(name, mode); vp_pointer(h.ncid());' % N, 'int id; if(nc_open(name.c_str(), mode, &id) != NC_NOERR) %s vp_pointer(id); nc_close(id);' % fail('CANNOT_BE_READ'), )
    L('open for reading', 'dataset.h', 'std::string const& name', 'auto h = %sopen_dataset(name); vp_pointer(h.ncid());' % N, 'int id; if(nc_open(name.c_str(), NC_NOWRITE, &id) != NC_NOERR) %s vp_pointer(id); nc_close(id);' % fail('CANNOT_BE_READ'))
    L('has_attribute', 'attribute.cc', H + ', std::string const& name', 'return %shas_attribute(h, name);' % N, 'int id; return nc_inq_attid(h.ncid(), NC_GLOBAL, name.c_str(), &id) == NC_NOERR;', 'bool')
    L('contains_variable', 'variable.cc', H + ', std::string const& name', 'return %scontains_variable(h, name);' % N, 'int id; return nc_inq_varid(h.ncid(), name.c_str(), &id) == NC_NOERR;', 'bool')
    L('variable_id', 'variable.cc', H + ', std::string const& name', 'return %svariable_id(h, name);' % N, 'int id; nc_inq_varid(h.ncid(), name.c_str(), &id); return id;', 'int')
    L('variable_is_scalar', 'variable.cc', H + ', int v', 'return %svariable_is_scalar(h, v);' % N, 'int d; nc_inq_varndims(h.ncid(), v, &d); return d == 0;', 'bool')
    t = 'nc_type t; nc_inq_vartype(h.ncid(), v, &t); auto& m = fern::io::netcdf::value_type_map; return m%s;'
    L('value_type_id', 'variable.cc', H + ', int v', 'return %svalue_type_id(h, v);' % N, [t % x for x in ('.find(t)->second', '.at(t)', '[t]')], 'fern::ValueType')
    L('read a number', 'variable.h', H + ', int v', 'vp::Policy p; double x; %sread_variable(p, h, v, x); vp_value(x);' % N, 'double x; nc_get_var_double(h.ncid(), v, &x); vp_value(x);')
    t = 'std::size_t n; nc_inq_attlen(h.ncid(), NC_GLOBAL, name.c_str(), &n); %s'
    L('attribute', 'attribute.cc', H + ', std::string const& name', 'auto r = %sattribute<std::string>(h, name); vp_string(r);' % N, [t % x for x in ['std::vector<char> b(n); nc_get_att_text(h.ncid(), NC_GLOBAL, name.c_str(), b.data()); std::string r(b.begin(), b.end()); vp_string(r);'] + list("std::string r(n, %s); nc_get_att_text(h.ncid(), NC_GLOBAL, name.c_str(), %s); vp_string(r);" % (x, y) for x in ("'\\0'", "' '") for y in ('&r[0]', 'r.data()', '&r.front()'))])
    out.append(Law('conforms_to_coards', H, 'return %sconforms_to_coards(h);' % N, ['auto c = %sconventions(h); return std::find(c.begin(), c.end(), "COARDS") != c.end();' % N, 'auto c = %sconventions(h); return std::count(c.begin(), c.end(), "COARDS") != 0;' % N], header='fern/io/netcdf/coards/dataset.cc', where='source/fern/io/netcdf/coards/dataset.cc', ret='bool'))
    r = 'std::vector<std::string> r; if(%shas_attribute(h, "Conventions")) { std::string v{%sattribute<std::string>(h, "Conventions")}; if(v.find(@) != std::string::npos) { r = fern::split(v, ","); # } else r = fern::split(v); } vp_strings(r);' % (N, N)
    L('conventions', 'attribute.cc', H, 'auto r = %sconventions(h); vp_strings(r);' % N, [r.replace('@', x).replace('#', y) for x in ('","', "','") for y in ('for(auto& x: r) fern::strip(x);', 'for(std::size_t i = 0; i < r.size(); ++i) fern::strip(r[i]);')])
    C = 'fern/io/netcdf/coards/read.h'
    ref = 'std::string const name{n.database_pathname().native_string()}; if(!fern::io::file_exists(name)) %s int id; if(nc_open(name.c_str(), NC_NOWRITE, &id) != NC_NOERR) %s fern::io::netcdf::DatasetHandle h(id); ' % (fail('DOES_NOT_EXIST'), fail('CANNOT_BE_READ'))
    ref += 'if(!%sconforms_to_coards(h)) %s std::string const var{n.data_pathname().names()[0]}; ' % (N, fail('DOES_NOT_CONFORM_TO_CONVENTION', '"COARDS"'))
    ref += 'if(!%scontains_variable(h, var)) %s int const v = %svariable_id(h, var); if(!%svariable_is_scalar(h, v)) %s ' % (N, fail('DOES_NOT_CONTAIN_VARIABLE', 'var'), N, N, fail('VARIABLE_IS_NOT_A_SCALAR', 'var'))
    ref += 'if(%svalue_type_id(h, v) != fern::value_type_id<double>()) %s nc_get_var_double(h.ncid(), v, &to);' % (N, fail('UNSUPPORTED_VALUE_TYPE', 'var', 'fern::TypeTraits<double>::name'))
    out.append(Law('read a COARDS scalar', 'fern::DataName const& n, double& to', 'vp::Policy p; %sread_coards(p, n, to);' % N, ref, header=C, where='source/fern/io/netcdf/coards/detail/read.h'))
    return out


def run(ctx):
    ctx.explanation = 'The calls of the NetCDF library, the exceptions thrown and what is returned are compared with what there should be, on every path.'
    laws.check(ctx, 'reading', PRE, all_laws(), 10, flags=FLAGS, shim=False, irx_args=KEEP, exceptions=True, only=ONLY)
