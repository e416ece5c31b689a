"""Flag collections, their constants and their names."""
import os, re
import build, laws, tables
from laws import Law
LEVEL = 'other'
FC, ET, VT, DT = 'fern/core/flag_collection.h', 'fern/core/expression_type.h', 'fern/core/value_types.h', 'fern/core/data_types.h'
PRE = '''#include <cstddef>
#include <string>
#include <vector>
#include "fern/core/flag_collection.h"
#include "fern/core/value_types.cc"
#include "fern/core/data_types.cc"
#include "fern/core/expression_type.cc"
using namespace fern;
namespace fern {
class FlagCollectionTest { public: template<class F, class E, std::size_t n> static unsigned long bits(FlagCollection<F, E, n> const& f) { return static_cast<std::bitset<n> const&>(f).to_ulong(); } template<class F, class E, std::size_t n> static unsigned long& word(FlagCollection<F, E, n>& f) { return reinterpret_cast<unsigned long&>(static_cast<std::bitset<n>&>(f)); } };
template<class F> unsigned long bits(F const& f) { return FlagCollectionTest::bits(f); }
struct T3: FlagCollection<T3, int, 3> { T3(unsigned long long b): FlagCollection<T3, int, 3>(b) {} std::string to_string() const { return std::string(); } };
}
'''
ENUM = 'BOOL CHAR UINT8 INT8 UINT16 INT16 UINT32 INT32 UINT64 INT64 FLOAT32 FLOAT64 STRING'.split()
GROUPS = dict(UNKNOWN=[], UNSIGNED_INTEGER='UINT8 UINT16 UINT32 UINT64'.split(), SIGNED_INTEGER='INT8 INT16 INT32 INT64'.split(), SIZE=['UINT64'], FLOATING_POINT=['FLOAT32', 'FLOAT64'])
GROUPS['INTEGER'] = GROUPS['UNSIGNED_INTEGER'] + GROUPS['SIGNED_INTEGER']
GROUPS['NUMBER'] = GROUPS['INTEGER'] + GROUPS['FLOATING_POINT']
GROUPS['ALL'] = ENUM
DENUM = ['CONSTANT', 'STATIC_FIELD']
DGROUPS = dict(UNKNOWN=[], ALL=DENUM)
TRAITS = {'b': 'BOOL', 'c': 'CHAR', 'h': 'UINT8', 'a': 'INT8', 't': 'UINT16', 's': 'INT16', 'j': 'UINT32', 'i': 'INT32', 'm': 'UINT64', 'l': 'INT64', 'f': 'FLOAT32', 'd': 'FLOAT64', 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': 'STRING'}


def all_laws():
    out = []
    for F, h in (('ValueTypes', VT), ('DataTypes', DT)):
        ab = '%s const& a, %s const& b' % (F, F)
        r = lambda n, sig, i, ref, ret='bool': out.append(Law('%s: %s' % (F, n), sig, i, ref, header=h, where='source/' + FC, ret=ret))
        r('a & b', ab, 'return bits(a & b);', 'return bits(a) & bits(b);', 'unsigned long')
        r('a | b', ab, 'return bits(a | b);', 'return bits(a) | bits(b);', 'unsigned long')
        for o in '&|^':
            r('a %s= b' % o, '%s& a, %s const& b' % (F, F), 'return &(a %s= b) == &a;' % o, 'FlagCollectionTest::word(a) %s= bits(b); return true;' % o)
        r('a == b', ab, 'return a == b;', 'return bits(a) == bits(b);')
        r('a != b', ab, 'return a != b;', 'return bits(a) != bits(b);')
        r('none', F + ' const& a', 'return a.none();', 'return bits(a) == 0;')
        r('any', F + ' const& a', 'return a.any();', 'return bits(a) != 0;')
        for k in (0, 1):
            r('test(%d)' % k, F + ' const& a', 'return a.test(%d);' % k, 'return bits(a) >> %d & 1;' % k)
        r('default construction', '', 'return bits(%s());' % F, 'return 0;', 'unsigned long')
        r('copy', F + ' const& a', '%s c(a); return bits(c);' % F, 'return bits(a);', 'unsigned long')
        r('assignment', '%s& a, %s const& b' % (F, F), 'a = b; return true;', 'FlagCollectionTest::word(a) = bits(b); return true;')
    def ex(name, sig, impl, n, f):
        def cases():
            for a in range(8):
                for b in range(8 if n == 2 else 1): yield {0: a, 1: b} if n == 2 else {0: a}
        out.append(Law(name, sig, impl, None, header=FC, cases=cases, expect=f))
    A, AB = 'unsigned a', 'unsigned a, unsigned b'
    c = lambda x: bin(x).count('1')
    ex('fixed', A, 'return T3(a).fixed();', 1, lambda x: c(x[0]) == 1)
    for k in range(4): ex('count is %d' % k, A, 'return T3(a).count() == %d;' % k, 1, lambda x, k=k: c(x[0]) == k)
    for k in range(3): ex('test(%d)' % k, A, 'return T3(a).test(%d);' % k, 1, lambda x, k=k: bool(x[0] >> k & 1))
    ex('none', A, 'return T3(a).none();', 1, lambda x: x[0] == 0)
    ex('any', A, 'return T3(a).any();', 1, lambda x: x[0] != 0)
    ex('is_subset_of', AB, 'return T3(a).is_subset_of(T3(b));', 2, lambda x: x[0] != 0 and x[0] & x[1] == x[0])
    ex('==', AB, 'return T3(a) == T3(b);', 2, lambda x: x[0] == x[1])
    ex('!=', AB, 'return T3(a) != T3(b);', 2, lambda x: x[0] != x[1])
    e = 'ExpressionType const& x'; xy = e + ', ExpressionType const& y'
    for n, sig, i, r in [('defined', e, 'x.defined()', 'x.data_type().any() && x.value_type().any()'), ('fixed', e, 'x.fixed()', 'x.data_type().fixed() && x.value_type().fixed()'),
                         ('is_satisfied_by', xy, 'x.is_satisfied_by(y)', 'y.data_type().is_subset_of(x.data_type()) && y.value_type().is_subset_of(x.value_type())'),
                         ('==', xy, 'x == y', 'bits(x.data_type()) == bits(y.data_type()) && bits(x.value_type()) == bits(y.value_type())'),
                         ('!=', xy, 'x != y', 'bits(x.data_type()) != bits(y.data_type()) || bits(x.value_type()) != bits(y.value_type())')]:
        out.append(Law('ExpressionType: ' + n, sig, 'return %s;' % i, 'return %s;' % r, header=ET, where='source/' + ET, ret='bool'))
    dv = 'DataTypes const& d, ValueTypes const& v'
    out.append(Law('ExpressionType: data type given', dv, 'return bits(ExpressionType(d, v).data_type());', 'return bits(d);', header=ET, ret='unsigned long'))
    out.append(Law('ExpressionType: value type given', dv, 'return bits(ExpressionType(d, v).value_type());', 'return bits(v);', header=ET, ret='unsigned long'))
    return out


def constants(d):
    """{symbol: value} of the integers that the initialisers store."""
    out = {}
    for n, files in (('v', ['type_traits.cc', 'value_types.cc']), ('d', ['data_types.cc'])):
        src = os.path.join(d, 'c%s.cc' % n)
        with open(src, 'w') as f: f.write(''.join('#include "fern/core/%s"\n' % x for x in files))
        r = build.run(['clang++', '-std=c++17', '-O2', '-w', '-DNDEBUG', '-Ddynamic_cast=static_cast', '-fno-exceptions', '-fno-c++-static-destructors', '-S', '-emit-llvm', '-o', '-'] + build.includes(False) + [src])
        if r.returncode: raise build.ToolError('the constants do not compile: ' + r.stderr[-800:])
        regs = {}
        for l in r.stdout.splitlines():
            m = re.match(r'@(\S*TypeTraits\S*10value_typeE) = .*constant i32 (\d+)', l)
            if m: out[m.group(1)] = int(m.group(2)); continue
            m = re.match(r'@(_ZN4fern\w+) = .*global %"class\.fern::(?:Value|Data)Types" \{.* i64 (\d+)', l)
            if m: out[m.group(1)] = int(m.group(2)); continue
            m = re.match(r'\s*(%\S+) = load i64, ptr .*@(_ZN4fern\w+)', l)
            if m: regs[m.group(1)] = out.get(m.group(2)); continue
            m = re.match(r'\s*(%\S+) = (or|and|xor|add)( disjoint)? i64 (\S+), (\S+?)(,|$)', l)
            if m:
                v = [regs.get(x) if x.startswith('%') else int(x) for x in (m.group(4), m.group(5))]
                regs[m.group(1)] = None if None in v else {'or': v[0] | v[1], 'and': v[0] & v[1], 'xor': v[0] ^ v[1], 'add': v[0] + v[1]}[m.group(2)]; continue
            m = re.match(r'\s*store i64 (\S+), ptr getelementptr .*class\.fern::(?:Value|Data)Types", ptr @(_ZN4fern\w+),', l)
            if m: out[m.group(2)] = regs.get(m.group(1)) if m.group(1).startswith('%') else int(m.group(1))
    return out


def mangled(cls, n): return '_ZN4fern%d%s%d%sE' % (len(cls), cls, len(n), n)


def check_constants(ctx, c):
    found = 0

    def one(rule, name, sym, want, where):
        nonlocal found
        v = c.get(sym)
        if v is None: ctx.undecided(rule, name, 'its value is not a constant of the initialiser'); return
        found += 1
        if v == want: ctx.ok(rule, name, hex(v))
        else: ctx.bad(rule, name, where, 'its flags are %s where %s is right' % (hex(v), hex(want)))
    for cls, enum, groups, w in (('ValueTypes', ENUM, GROUPS, 'source/fern/core/type_traits.cc'), ('DataTypes', DENUM, DGROUPS, 'source/fern/core/data_types.cc')):
        for k, e in enumerate(enum): one('constant', '%s::%s' % (cls, e), mangled(cls, e), 1 << k, w)
        for g, m in groups.items(): one('constant', '%s::%s' % (cls, g), mangled(cls, g), sum(1 << enum.index(x) for x in m), w)
    for t, e in TRAITS.items():
        one('value type of a type', 'TypeTraits<%s>::value_type' % e.lower(), '_ZN4fern10TypeTraitsI%sE10value_typeE' % t, ENUM.index(e), 'source/fern/core/type_traits.cc')
        one('value type of a type', 'TypeTraits<%s>::value_types' % e.lower(), '_ZN4fern10TypeTraitsI%sE11value_typesE' % t, 1 << ENUM.index(e), 'source/fern/core/type_traits.cc')
    ctx.need('constants', found, 30)


def fold(s): return s.replace('_', '').lower()


def check_tables(ctx, root):
    inc = ['-std=c++17'] + build.includes(False)
    n = 0
    for cls, enum, groups, flag, prefix, listed, f in (('ValueTypes', ENUM, GROUPS, 'ValueType', 'VT_', 'VALUE_TYPES', 'value_types.cc'), ('DataTypes', DENUM, DGROUPS, 'DataType', 'DT_', 'DATA_TYPES', 'data_types.cc')):
        trees = tables.units(os.path.join(root, f), inc)
        where = 'source/fern/core/' + f
        names = {}, {}
        for owner, row, kind in tables.all_rows(trees):
            if len(row) != 2: continue
            kinds = {a[0]: a for a in row}
            if set(kinds) != {'s', 'd'}: continue
            s, t = kinds['s'][1], kinds['d']
            if re.search(r'\b%s$' % flag, t[2]): names[0].setdefault(t[1][len(prefix):], set()).add(s)
            elif re.search(r'\b%s( const)?$' % cls, t[2]): names[1].setdefault(s, set()).add(t[1])
        for e in enum:
            i = '%s of %s%s' % ('name', prefix, e)
            if not names[0]: ctx.undecided('names', i, 'no table of names was recognised'); continue
            n += 1
            got = names[0].get(e, set())
            if len(got) != 1: ctx.bad('names', i, where, 'it has the names %s' % sorted(got) if got else 'it has no name'); continue
            s = list(got)[0]
            twin = [x for x, v in names[0].items() if s in v and x != e]
            if twin: ctx.bad('names', i, where, 'its name "%s" is also the name of %s%s' % (s, prefix, twin[0]))
            elif names[1] and names[1].get(s) != {e}: ctx.bad('names', i, where, 'its name "%s" is read back as %s' % (s, ' and '.join(sorted(names[1].get(s, {'nothing'})))))
            else: ctx.ok('names', i, '"%s", read back as %s::%s' % (s, cls, e))
        for s, t in sorted(names[1].items()):
            i = '"%s"' % s; n += 1
            if len(t) != 1: ctx.bad('names', i, where, 'it names %s' % ' and '.join(sorted(t)))
            elif fold(list(t)[0]) != fold(s): ctx.bad('names', i, where, 'it names %s::%s' % (cls, list(t)[0]))
            else: ctx.ok('names', i, '%s::%s' % (cls, list(t)[0]))
        for t in trees:
            for v in tables.find(t, 'VarDecl', listed):
                a = [x[1][len(prefix):] for x in tables.atoms(v) if x[0] == 'd' and re.search(r'\b%s$' % flag, x[2])]
                if not a: continue
                n += 1
                if sorted(a) == sorted(enum): ctx.ok('names', '%s::%s' % (cls, listed), '%d flags' % len(a))
                else: ctx.bad('names', '%s::%s' % (cls, listed), where, 'it lists %s' % ', '.join(a))
    # names of the types
    for t in tables.units(os.path.join(root, 'type_traits.cc'), inc):
        for v in tables.find(t, 'VarDecl', 'name'):
            m = re.match(r'_ZN4fern10TypeTraitsI(.*)E4name(B5cxx11)?E$', v.get('mangledName', ''))
            if not m or m.group(1) not in TRAITS: continue
            a = [x for x in tables.atoms(v) if x[0] == 's']
            if len(a) != 1: continue
            n += 1; e = TRAITS[m.group(1)]
            if fold(a[0][1]) == fold(e): ctx.ok('names', 'TypeTraits<%s>::name' % e.lower(), a[0][1])
            else: ctx.bad('names', 'TypeTraits<%s>::name' % e.lower(), 'source/fern/core/type_traits.cc', 'it is "%s"' % a[0][1])
    ctx.need('table rows', n, 25)


def run(ctx):
    ctx.explanation = ('The members of FlagCollection, ValueTypes, DataTypes and ExpressionType are compared with bit arithmetic, symbolically or for each of the 64 pairs of values of a collection of three flags. The constants are read from the '
        'initialisers after constant propagation and compared with the documented flags. The tables of names are read from the syntax tree: each flag has one name, names differ, and reading a name gives the flag back.')
    laws.check(ctx, 'law', PRE, all_laws(), 35, flags=('-Ddynamic_cast=static_cast', '-fno-c++-static-destructors'))
    with build.Scratch() as d: check_constants(ctx, constants(d))
    check_tables(ctx, os.path.join(build.REPO, 'source', 'fern', 'core'))
    ctx.assumptions += ['std::bitset and std::map behave as specified', 'dynamic_cast in FlagCollection succeeds: each collection is derived from FlagCollection of itself', 'from_string and to_string look their argument up in the tables']
