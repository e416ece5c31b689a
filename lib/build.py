"""Compiling probe translation units against /repo's current sources."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class ToolError(Exception):
    """The analysis itself could not be carried out."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool(name):
    """Build (once) and return the path of a helper written in C++."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', name, name + '.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, h))
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', out + '.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
            r = run(cmd)
            if r.returncode: raise ToolError('building %s failed:\n%s' % (name, r.stderr[-2000:]))
            os.rename(out + '.tmp', out)
    return out


def std_headers():
    """The installed C++ library's own headers, with the one change that
    std::find_if and what is built on it walks a random access range in the
    plain loop it uses for other ranges, not four cells at a time."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'std')
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'bits')):
            r = run(['clang++', '-xc++', '-E', '-v', '/dev/null'])
            for d in (l.strip() for l in r.stderr.splitlines() if l.startswith(' /')):
                src = os.path.join(d, 'bits', 'stl_algobase.h')
                if not os.path.exists(src): continue
                os.makedirs(out + '.tmp/bits', exist_ok=True)
                t = open(src).read()
                with open(out + '.tmp/bits/stl_algobase.h', 'w') as f: f.write(t.replace('_Predicate __pred, random_access_iterator_tag)', '_Predicate __pred, struct vp_no_iterator_tag*)'))
                os.rename(out + '.tmp', out); break
    return out


def includes(shim=True):
    inc = ['-isystem', std_headers()]
    if shim: inc += ['-I', os.path.join(VERIF, shim if isinstance(shim, str) else 'shim')]
    inc += ['-I', os.path.join(VERIF, 'probe'), '-I', os.path.join(REPO, 'source'), '-I', os.path.join(REPO, '_build', 'generated'), '-I', os.path.join(VERIF, 'generated')]
    return inc


class Scratch:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-', dir=BUILD)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-DNDEBUG', '-fno-strict-return']
NOEXC = ['-fno-exceptions', '-DBOOST_NO_EXCEPTIONS']


def compile_bc(src, out, flags=(), shim=True, exceptions=False, std_includes=()):
    cmd = ['clang++'] + FLAGS + ([] if exceptions else NOEXC) + list(flags) + ['-emit-llvm', '-c'] + includes(shim)
    for i in std_includes: cmd += ['-include', i]
    r = run(cmd + [src, '-o', out])
    if r.returncode: raise ToolError('the analysed sources do not compile:\n' + '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:3000])
    return out


def irx(bc, prefix, args=()):
    out = bc + '.json'
    r = run([tool('irx'), bc, prefix, out] + list(args))
    if r.returncode: raise ToolError('irx: ' + r.stderr[-2000:])
    j = json.load(open(out))
    os.unlink(out)
    return j


def functions(text, prefix='vp_entry_', scratch=None, name='probe', flags=(), shim=True, exceptions=False, irx_args=(), std_includes=()):
    """Compile probe text and return the normalised entry functions."""
    src = os.path.join(scratch, name + '.cc')
    open(src, 'w').write(text)
    bc = compile_bc(src, os.path.join(scratch, name + '.bc'), flags, shim, exceptions, std_includes)
    return {f['demangled'].split('(')[0]: f for f in irx(bc, prefix, irx_args) if ')::' not in f['demangled']}
