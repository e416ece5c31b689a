"""Messages and the exceptions that carry them."""
import concurrent.futures as cf, os, re
import build, laws, tables, whole
from laws import Law
LEVEL = 'other'
PRE = '''#include <cassert>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <stdexcept>
#include <boost/format.hpp>
#include <boost/exception/all.hpp>
#define private public      // the table Messages is made of
#define protected public
#include "fern/core/messages.h"
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/script_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/validate_error.h"
#undef private
#undef protected
#include "fern/core/messages.cc"
#include "fern/core/exception.cc"
#include "fern/core/io_error.cc"
#include "fern/core/script_error.cc"
#include "fern/core/parse_error.cc"
#include "fern/core/validate_error.cc"
using namespace fern;
void vp_string(std::string const&); void vp_number(long);
struct Probe: fern::ScriptError { Probe(fern::MessageId i, std::string const& s, long l, long c): fern::ScriptError(i, s, l, c) {} };
'''
KEEP = ('^boost::basic_format', '^std::__cxx11::basic_string', '^std::map', '^std::_Rb_tree', '^fern::Messages::operator')
ONLY = r'^vp_(string|number)|^__assert|Messages::operator'


def all_laws():
    out = []
    W = 'source/fern/core/'
    L = lambda n, f, sig, i, r, ret='void', **k: out.append(Law(n, sig, i, r, where=W + f, ret=ret, **k))
    fmt = lambda text, *args: 'vp_string((boost::format(%s) %s).str());' % (text, ' '.join('% ' + a for a in args))
    S = 'std::string const& '
    for n in range(1, 5):
        a = ['a', 'b', 'c', 'd'][:n]
        for t in ('std::string', 'long'):
            L('format_message with %d of %s' % (n, t), 'messages.h', 'Messages const& m, MessageId i, ' + ', '.join('%s const& %s' % (t, x) for x in a), 'vp_string(m.format_message(i, %s));' % ', '.join(a), fmt('m[i]', *a))
    L('Exception::message', 'exception.cc', 'MessageId i', 'Exception e(i); vp_string(e.message());', 'vp_string(Exception::messages()[i]);')
    E = lambda id: 'Exception::messages()[MessageId::%s]' % id
    L('IOError', 'io_error.cc', S + 's, ' + S + 'm', 'IOError e(s, m); vp_string(e.message());', fmt(E('IO_ERROR'), 's', 'm'))
    L('IOError of errno', 'io_error.cc', S + 's, int n', 'IOError e(s, n); vp_string(e.message());', 'std::string m(std::strerror(n)); ' + fmt(E('IO_ERROR'), 's', 'm'))
    P = S + 's, long l, long c, '
    L('ValidateError', 'validate_error.cc', P + S + 'm', 'ValidateError e(s, l, c, m); vp_string(e.message());', fmt(E('ERROR_VALIDATING'), 's', 'l', 'c', 'm'))
    L('ParseError', 'parse_error.cc', P + S + 'm', 'ParseError e(s, l, c, m); vp_string(e.message());', fmt(E('ERROR_PARSING'), 's', 'l', 'c', 'm'))
    L('ParseError of a statement', 'parse_error.cc', P + S + 't, ' + S + 'm', 'if(t.empty()) return; ParseError e(s, l, c, t, m); vp_string(e.message());', 'if(t.empty()) return; ' + fmt(E('ERROR_PARSING_STATEMENT'), 's', 'l', 'c', 't', 'm'))
    for n, ret in (('source_name', 'std::string'), ('line_nr', 'long'), ('col_nr', 'long')):
        v = 'vp_string(%s);' if ret != 'long' else 'vp_number(%s);'
        L('ScriptError::' + n, 'script_error.cc', 'MessageId i, ' + P[:-2], 'Probe e(i, s, l, c); ' + v % ('e.%s()' % n), v % {'s': 's', 'l': 'l', 'c': 'c'}[n[0]])
    return out


def lookup_laws():
    r = 'auto& t = static_cast<std::map<MessageId, std::string> const&>(m); auto i = t.find(id); if(i == t.end()) i = t.find(MessageId::UNKNOWN_ERROR); return &i->second;'
    return [Law('text of an identification', 'Messages const& m, MessageId id', 'return &m[id];', r, where='source/fern/core/messages.cc', ret='void const*')]


# Words of an identification that its text need not repeat, and what the
# exceptions of this identification fill in.
FREE = {'IO_ERROR': [], 'ERROR_PARSING_STATEMENT': ['STATEMENT'], 'ERROR_VALIDATING': ['ERROR', 'VALIDATING']}
CARRIED = {'IO_ERROR': ('IOError', 2), 'ERROR_PARSING': ('ParseError', 4), 'ERROR_PARSING_STATEMENT': ('ParseError of a statement', 5), 'ERROR_VALIDATING': ('ValidateError', 4)}


def placeholders(text): return [int(x) for x in re.findall(r'%(\d+)%', text.replace('%%', ''))]


def texts(ctx):
    """The texts by identification, from the constructor of Messages."""
    src = os.path.join(build.REPO, 'source', 'fern', 'core', 'messages.cc'); where = 'source/fern/core/messages.cc'
    trees = tables.units(src, ['-std=c++17'] + build.includes(False))
    ids = [n['name'] for t in trees for e in tables.find(t, 'EnumDecl', 'MessageId') for n in e.get('inner', []) if n.get('kind') == 'EnumConstantDecl']
    ids = list(dict.fromkeys(ids))
    got = {}
    for owner, row, kind in tables.all_rows(trees):
        if len(row) == 2 and row[0][0] == 'd' and row[1][0] == 's' and 'MessageId' in row[0][2]:
            v = got.setdefault(row[0][1], [])
            if row[1][1] not in v: v.append(row[1][1])
    ctx.need('identifications of messages', len(ids), 20)
    if not got: ctx.undecided('texts', 'table of texts', 'no table was recognised'); return {}
    for i in ids:
        v = got.get(i, [])
        if len(v) != 1:
            ctx.bad('texts', i, where, 'it has %s' % ('no text' if not v else 'more than one text: ' + '; '.join(v))); continue
        p = placeholders(v[0]); words = [w for w in i.split('_') if w not in FREE.get(i, [])]
        if i == 'IO_ERROR': words = ['I/O', 'ERROR']
        missing = [w for w in words if w.lower() not in v[0].lower()]
        if missing: ctx.bad('texts', i, where, 'the text "%s" does not say "%s"' % (v[0], ' '.join(missing).lower()))
        elif p != list(range(1, len(p) + 1)): ctx.bad('texts', i, where, 'the text "%s" does not take its arguments in order' % v[0])
        else: ctx.ok('texts', i, v[0])
        if i in CARRIED:
            if len(p) == CARRIED[i][1]: ctx.ok('arguments', CARRIED[i][0], '%d arguments' % len(p))
            else: ctx.bad('arguments', CARRIED[i][0], where, 'it fills in %d arguments and the text "%s" takes %d' % (CARRIED[i][1], v[0], len(p)))
    return {i: placeholders(v[0]) for i, v in got.items() if len(v) == 1}


def uses(n, out, path='?'):
    """Calls of Messages that name an identification: (id, how many other
    arguments, line)."""
    k = n.get('kind'); inner = [c for c in n.get('inner', []) if c]
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and len(inner) >= 2:
        named = lambda c: list(dict.fromkeys(a[1] for a in tables.atoms(c) if a[0] == 'd' and 'MessageId' in a[2]))
        f = inner[0]
        member = f.get('kind') in ('MemberExpr', 'UnresolvedMemberExpr', 'CXXDependentScopeMemberExpr')
        base = (f.get('inner') or [{}])[0] if member else inner[1]
        types = (base.get('type', {}).get('qualType', ''), base.get('type', {}).get('desugaredQualType', ''))
        args = inner[1:] if member else inner[2:]
        if any(re.search(r'\bMessages\b', t) for t in types) and args: out += [(i, len(args) - 1, n) for i in named(args[0])]
    for c in inner: uses(c, out)
    return out


BEFORE = ''.join('#include %s\n' % h for h in ('<cassert>', '<cstddef>', '<cstdint>', '<map>', '<memory>', '<sstream>', '<string>', '<utility>', '<vector>', '<gdal_priv.h>', '<netcdf.h>', '"fern/core/argument_categories.h"', '"fern/core/data_name.h"',
    '"fern/core/data_type_traits.h"', '"fern/core/io_error.h"', '"fern/core/type_traits.h"', '"fern/io/core/file.h"', '"fern/io/gdal/dataset.h"', '"fern/io/gdal/gdal_value_type_traits.h"', '"fern/io/gdal/value_type_traits.h"', '"fern/io/netcdf/core/dataset.h"', '"fern/io/netcdf/core/attribute.h"',
    '"fern/io/netcdf/core/variable.h"', '"fern/io/netcdf/coards/dataset.h"'))


def places():
    """(file, text of a translation unit) of the library code that names
    identifications."""
    root = os.path.join(build.REPO, 'source', 'fern'); out = []
    lib = whole.sources()
    for d, src in lib:
        if 'MessageId' in open(src, errors='replace').read() and not src.endswith('core/messages.cc'): out.append((d, src, '#include "%s"\n' % src))
    for base, dirs, files in os.walk(root):
        if 'test' in base.split(os.sep) or 'script' in base or 'interpreter' in base: continue
        for f in files:
            p = os.path.join(base, f); d = os.path.relpath(base, root)
            if f.endswith('.h') and d != 'core' and 'MessageId' in open(p, errors='replace').read():
                by = [(d2, s) for d2, s in lib if re.search(r'#\s*include\s*[<"][^>"]*\b%s/%s[>"]' % (d, f), open(s, errors='replace').read())]
                out.append((by[0][0], p, '#include "%s"\n' % by[0][1]) if by else (d, p, BEFORE + '#include "%s"\n' % p))
    return sorted(out)


def _uses(job):
    d, p, text, scratch = job
    src = os.path.join(scratch, re.sub(r'\W', '_', p) + '.cc')
    with open(src, 'w') as f: f.write(text)
    try: trees = tables.units(src, whole.flags(d, scratch))
    except build.ToolError as e: return p, None, str(e)
    out, seen = [], set()
    for t in trees:
        for i, n, node in uses(t, []):
            key = (i, n, str(node.get('range', {}).get('begin', {}).get('offset')))
            if key not in seen: seen.add(key); out.append((i, n))
    return p, out, None


def calls(ctx, known):
    import multiprocessing
    total = 0
    with build.Scratch() as d:
        jobs = [(a, p, t, d) for a, p, t in places()]
        if any(j[0].startswith('language') for j in jobs): whole.xsd_header(d)
        whole.parsers_of(d, {j[0] for j in jobs})
        with multiprocessing.Pool(8) as pool:
            for p, found, err in pool.imap(_uses, jobs):
                rel = os.path.relpath(p, build.REPO)
                if found is None: ctx.undecided('calls', rel, err[-300:]); continue
                for k, (i, n) in enumerate(found):
                    total += 1; name = '%s %d: %s' % (rel, k, i)
                    if i not in known: continue     # reported above
                    if n == 0 and i in CARRIED: ctx.ok('calls', name, 'the exception fills it in')
                    elif len(known[i]) == n: ctx.ok('calls', name, '%d arguments' % n)
                    else: ctx.bad('calls', name, rel, 'the text of %s takes %d arguments and %d are given' % (i, len(known[i]), n))
    ctx.need('uses of messages', total, 8)


def run(ctx):
    ctx.explanation = 'The table of texts and every use of it are read from the syntax tree; what exceptions report is compared with the format of their text, argument by argument.'
    known = texts(ctx)
    if known: calls(ctx, known)
    laws.check(ctx, 'exception', PRE, all_laws(), 15, shim=False, irx_args=KEEP, exceptions=True, only=ONLY)
    laws.check(ctx, 'lookup', PRE, lookup_laws(), 1, shim=False, irx_args=('^std::map',), exceptions=True, only='^vp_|^std::map', flags=('-DNDEBUG',))
