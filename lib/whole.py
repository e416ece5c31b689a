"""All translation units of the libraries, compiled from the current sources."""
import concurrent.futures as cf, json, os
from build import BUILD, REPO, run, tool, ToolError

# The directories whose sources the build compiles.
DIRS = ['core', 'feature/core', 'algorithm/core', 'algorithm/policy', 'example/algorithm', 'io/core', 'io/gdal', 'io/gpx', 'io/netcdf/core', 'io/netcdf/coards',
    'language/ast/core', 'language/ast/visitor', 'language/ast/xml', 'language/back_end/core', 'language/feature/core', 'language/feature/visitor', 'language/uncertainty', 'language/operation/core',
    'language/operation/xml', 'language/io/uncertml2']
PARSERS = [('language/ast/xml', 'syntax_tree', ['--namespace-map', 'http://www.geoneric.eu/fern=fern::language']), ('language/operation/xml', 'operation', ['--namespace-map', 'http://www.geoneric.eu/fern=fern::language']),
    ('language/io/uncertml2', 'uncertml2', ['--namespace-map', 'http://www.uncertml.org/2.0=uncertml2', '--generate-polymorphic'])]
TREES = [('io/gpx', 'gpx-1.0', ['--namespace-map', 'http://www.topografix.com/GPX/1/0=gpx_1_0']), ('io/gpx', 'gpx-1.1', ['--namespace-map', 'http://www.topografix.com/GPX/1/1=gpx_1_1'])]


def parsers_of(scratch, dirs):
    """The sources the build generates from the XML schemas."""
    out = []
    for kind, rows in (('cxx-parser', PARSERS), ('cxx-tree', TREES)):
        for d, name, args in rows:
            if d not in dirs: continue
            to = os.path.join(scratch, 'gen', 'fern', d); src = os.path.join(REPO, 'source', 'fern', d)
            os.makedirs(to, exist_ok=True)
            cmd = ['xsdcxx', kind, '--std', 'c++11', '--output-dir', to] + args
            if kind == 'cxx-parser':
                with open(os.path.join(to, name + '.map'), 'w') as f: f.write(open(os.path.join(src, name + '.map.in')).read())
                cmd += ['--xml-parser', 'expat', '--type-map', os.path.join(to, name + '.map')]
            r = run(cmd + [os.path.join(src, name + '.xsd')])
            if r.returncode: raise ToolError('xsdcxx %s: %s' % (name, r.stderr[-500:]))
            out.append((d, os.path.join(to, name + ('-pskel.cxx' if kind == 'cxx-parser' else '.cxx'))))
    return out


def sources(dirs=DIRS):
    out = []
    for d in dirs:
        p = os.path.join(REPO, 'source', 'fern', d)
        if not os.path.isdir(p): raise ToolError('%s is gone' % p)
        for n in sorted(os.listdir(p)):
            if n.endswith('.cc') and n != 'stopwatch.cc': out.append((d, os.path.join(p, n)))
    return out


def xsd_header(scratch):
    """xsd's expat support as clang takes it: the assignment of a plain
    pointer to a unique_ptr, in a template that is never instantiated."""
    p = 'xsd/cxx/parser/expat/elements.txx'; to = os.path.join(scratch, 'xsdfix')
    if not os.path.isdir(to):
        os.makedirs(os.path.join(to, os.path.dirname(p)))
        text = open(os.path.join('/usr/include', p)).read()
        with open(os.path.join(to, p), 'w') as f: f.write(text.replace("auto_xml_parser_ = XML_ParserCreateNS (0, XML_Char (' '));", "auto_xml_parser_.reset (XML_ParserCreateNS (0, XML_Char (' ')));"))
    return to


def flags(d, scratch):
    f = ['-std=c++17', '-I', os.path.join(REPO, 'source'), '-I', os.path.join(scratch, 'gen'), '-I', os.path.join(REPO, '_build', 'generated'), '-I', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'generated')]
    if d.startswith('language'): f += ['-isystem', xsd_header(scratch), '-include', 'cassert', '-include', 'string', '-include', 'vector']
    if d.startswith('io'): f += ['-isystem', '/usr/include/gdal', '-isystem', '/usr/include/hdf5/serial']
    return f


def relative(p):
    r = os.path.join(REPO, '')
    return p[len(r):] if p.startswith(r) else p.split('/gen/', 1)[1] if '/gen/' in p else p


def facts(scratch, dirs=DIRS, generated=True, options=('-O0',)):
    """{source: facts of tools/cgx} of every translation unit."""
    todo = parsers_of(scratch, dirs)
    todo = sources(dirs) + (todo if generated else [])
    cgx = tool('cgx'); xsd_header(scratch)

    def one(i, d, src):
        bc = os.path.join(scratch, 'm%d.bc' % i)
        r = run(['clang++', '-w', '-g1'] + list(options) + flags(d, scratch) + ['-emit-llvm', '-c', src, '-o', bc])
        if r.returncode: raise ToolError('%s does not compile:\n%s' % (src, '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:1500]))
        r = run([cgx, bc])
        if r.returncode: raise ToolError('cgx %s: %s' % (src, r.stderr[-500:]))
        os.unlink(bc)
        return relative(src), json.loads(r.stdout)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return dict(ex.map(lambda a: one(*a), [(i, d, s) for i, (d, s) in enumerate(todo)]))
