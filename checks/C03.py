"""Type identities agree across the traits of fern, GDAL and NetCDF."""
import os, re
import build, laws, tables, witness
from laws import Law
from witness import W
LEVEL = 'other'
T = dict(BOOL='bool', CHAR='char', UINT8='uint8_t', INT8='int8_t', UINT16='uint16_t', INT16='int16_t', UINT32='uint32_t', INT32='int32_t', UINT64='uint64_t', INT64='int64_t', FLOAT32='float', FLOAT64='double', STRING='std::string')
NUM = [t for t in T.values() if t not in ('bool', 'char', 'std::string')]
PRE = '''#include <complex>
#include <cstdint>
#include <string>
#include <type_traits>
#include "fern/core/type_traits.h"
#include "fern/core/value_type_traits.h"
#include "fern/core/math.h"
using namespace fern;
'''
GPRE = PRE + '''#include <gdal_priv.h>
#include "fern/io/gdal/value_type_traits.h"
#include "fern/io/gdal/gdal_value_type_traits.h"
namespace fg = fern::io::gdal;
template<typename X, typename = void> struct has_gdal: std::false_type {};
template<typename X> struct has_gdal<X, std::void_t<decltype(fg::ValueTypeTraits<X>::gdal_value_type)>>: std::true_type {};
'''
GDAL = dict(uint8_t='GDT_Byte', uint16_t='GDT_UInt16', int16_t='GDT_Int16', uint32_t='GDT_UInt32', int32_t='GDT_Int32', float='GDT_Float32', double='GDT_Float64')
GDAL['std::complex<float>'] = 'GDT_CFloat32'; GDAL['std::complex<double>'] = 'GDT_CFloat64'
GDT = 'Unknown Byte UInt16 Int16 UInt32 Int32 Float32 Float64 CInt16 CInt32 CFloat32 CFloat64'.split()
NC = {2: 'CHAR', 7: 'UINT8', 1: 'INT8', 8: 'UINT16', 3: 'INT16', 9: 'UINT32', 4: 'INT32', 11: 'UINT64', 10: 'INT64', 5: 'FLOAT32', 6: 'FLOAT64', 12: 'STRING'}
NCN = {2: 'NC_CHAR', 7: 'NC_UBYTE', 1: 'NC_BYTE', 8: 'NC_USHORT', 3: 'NC_SHORT', 9: 'NC_UINT', 4: 'NC_INT', 11: 'NC_UINT64', 10: 'NC_INT64', 5: 'NC_FLOAT', 6: 'NC_DOUBLE', 12: 'NC_STRING'}


def witnesses():
    out = []
    same = lambda a, b: 'std::is_same<%s, %s>::value' % (a, b)
    for e, t in T.items():
        out.append(W('ValueTypeTraits<VT_%s>::type' % e, same('ValueTypeTraits<VT_%s>::type' % e, t), where='source/fern/core/value_type_traits.h'))
        out.append(W('TypeTraits<%s>::builtin' % t, 'TypeTraits<%s>::builtin' % t))
        out.append(W('type of TypeTraits<%s>::value_type' % t, same('decltype(TypeTraits<%s>::value_type)' % t, 'ValueType const')))
    out.append(W('TypeTraits of another type', '!TypeTraits<std::complex<float>>::builtin && !TypeTraits<void*>::builtin'))
    out.append(W('number of value types', 'VT_LAST_VALUE_TYPE + 1 == %d' % len(T)))
    out.append(W('value types differ', ' && '.join('VT_%s == %d' % (e, k) for k, e in enumerate(T))))
    for t in T.values():
        if t == 'std::string': continue
        tag = {'b': 'boolean', 'c': 'char', 'u': 'unsigned_integer', 'i': 'signed_integer', 'f': 'floating_point', 'd': 'floating_point'}[t[0]]
        out.append(W('number category of ' + t, same('TypeTraits<%s>::number_category' % t, tag + '_tag') + ' && ' + same('number_category<%s>' % t, tag + '_tag')))
    for t in NUM:
        lim = 'std::numeric_limits<%s>::' % t
        nd = 'max' if t[0] == 'u' else 'min'
        for f, w in (('min', lim + 'min()'), ('max', lim + 'max()'), ('no_data_value', lim + nd + '()')):
            out.append(W('%s of %s' % (f, t), 'TypeTraits<%s>::%s() == %s && fern::%s<%s>() == %s && ' % (t, f, w, f, t, w) + same('decltype(fern::%s<%s>())' % (f, t), t)))
        if t in ('float', 'double'):
            out.append(W('infinity of ' + t, 'fern::infinity<%s>() == %sinfinity() && TypeTraits<%s>::infinity() == %sinfinity()' % (t, lim, t, lim)))
            out.append(W('nan of ' + t, 'fern::nan<%s>() != fern::nan<%s>() && TypeTraits<%s>::nan() != TypeTraits<%s>::nan()' % (t, t, t, t)))
            out.append(W('pi of ' + t, 'fern::pi<%s>() == %s(3.141592653589793238462643383279502884L) && fern::half_pi<%s>() == %s(1.570796326794896619231321691639751442L)' % (t, t, t, t)))
    for l in (['int'], ['int', 'int'], ['int', 'double'], ['int', 'int', 'int'], ['int', 'int', 'double'], ['int', 'double', 'int'], ['double', 'int', 'int'], ['float', 'double', 'float', 'double'], ['int'] * 5, ['int', 'int', 'int', 'float']):
        out.append(W('are_same<%s>' % ', '.join(l), 'are_same<%s>::value == %s' % (', '.join(l), 'true' if len(set(l)) == 1 else 'false')))
    return out


def gdal_witnesses():
    out = []
    for t in NUM:
        w = 'source/fern/io/gdal/value_type_traits.h'
        if t in GDAL: out.append(W('GDAL type of ' + t, 'fg::ValueTypeTraits<%s>::gdal_value_type == %s' % (t, GDAL[t]), where=w))
        else: out.append(W('no GDAL type of ' + t, '!has_gdal<%s>::value' % t, where=w))
    for t, g in GDAL.items(): out.append(W('type of ' + g, 'std::is_same<fg::GDALValueTypeTraits<%s>::type, %s>::value' % (g, t), where='source/fern/io/gdal/gdal_value_type_traits.h'))
    return out


def all_laws():
    out = []
    for t in NUM:
        nd = 'std::numeric_limits<%s>::%s()' % (t, 'max' if t[0] == 'u' else 'min')
        L = lambda n, sig, i, r, ret='bool': out.append(Law('%s<%s>' % (n, t), sig, i, r, header='fern/core/type_traits.h', ret=ret))
        L('is_no_data', '%s const& v' % t, 'return is_no_data(v);', 'return v == %s;' % nd)
        L('set_no_data', '%s& v' % t, 'set_no_data(v);', 'v = %s;' % nd, 'void')
        L('is_equal', '%s v, %s w' % (t, t), 'return is_equal<%s>(v, w);' % t, 'return v == w;')
        L('is_not_equal', '%s v, %s w' % (t, t), 'return is_not_equal<%s>(v, w);' % t, 'return v != w;')
    for t in T.values():
        out.append(Law('value_type_id<%s>' % t, '', 'return value_type_id<%s>();' % t, 'return TypeTraits<%s>::value_type;' % t, header='fern/core/type_traits.h', ret='int'))
    return out


def names(ctx, d):
    src = os.path.join(build.REPO, 'source', 'fern', 'io', 'gdal', 'gdal_value_type_traits.cc')
    inc = ['-std=c++17'] + build.includes(False) + ['-isystem', '/usr/include/gdal']
    pat = re.compile(r'_ZN4fern2io4gdal19GDALValueTypeTraitsIL12GDALDataType(\d+)EE4name')
    trees = tables.units(src, inc)
    declared, defined = set(), {}
    for t in trees:
        for v in tables.find(t, 'VarDecl', 'name'):
            m = pat.match(v.get('mangledName', ''))
            if not m: continue
            k = int(m.group(1)); declared.add(k)
            a = [x[1] for x in tables.atoms(v) if x[0] == 's']
            if len(a) == 1: defined[k] = a[0]
    for k in sorted(declared):
        n = GDT[k] if k < len(GDT) else None
        i = 'GDALValueTypeTraits<GDT_%s>::name' % (n or k)
        if k not in defined: ctx.bad('GDAL names', i, 'source/fern/io/gdal/gdal_value_type_traits.h', 'it is declared but defined nowhere')
        elif n and defined[k] != 'GDT_' + n: ctx.bad('GDAL names', i, 'source/fern/io/gdal/gdal_value_type_traits.cc', 'it is "%s"' % defined[k])
        else: ctx.ok('GDAL names', i, defined[k])
    ctx.need('GDAL names', len(declared), 6)


def netcdf(ctx):
    src = os.path.join(build.REPO, 'source', 'fern', 'io', 'netcdf', 'core', 'variable.cc')
    where = 'source/fern/io/netcdf/core/variable.cc'
    got = {}
    for owner, row, kind in tables.all_rows(tables.units(src, ['-std=c++17'] + build.includes(False) + ['-isystem', '/usr/include/hdf5/serial'])):
        if len(row) != 2: continue
        i = next((a for a in row if a[0] == 'i'), None); v = next((a for a in row if a[0] == 'd' and re.search(r'\bValueType$', a[2])), None)
        if i and v: got.setdefault(i[1], set()).add(v[1][3:])
    if not got:
        ctx.undecided('NetCDF types', 'table of types', 'no table was recognised'); return
    for k, e in NC.items():
        if got.get(k) == {e}: ctx.ok('NetCDF types', NCN[k], 'VT_' + e)
        else: ctx.bad('NetCDF types', NCN[k], where, 'it is taken for %s where VT_%s is right' % (' and '.join('VT_' + x for x in sorted(got[k])) if k in got else 'nothing', e))


def run(ctx):
    ctx.explanation = ('Compile-time witnesses state the type of each value type, the category and limits of each type, and that the GDAL types map both ways; the functions over single values are compared with their definition; '
        'the names of GDAL types and the NetCDF table are read from the syntax tree.')
    witness.check(ctx, 'traits', PRE, witnesses(), 80, 'source/fern/core/type_traits.h')
    witness.check(ctx, 'GDAL types', GPRE, gdal_witnesses(), 15, 'source/fern/io/gdal/value_type_traits.h', flags=('-isystem', '/usr/include/gdal'))
    laws.check(ctx, 'law', PRE, all_laws(), 40)
    with build.Scratch() as d: names(ctx, d)
    netcdf(ctx)
