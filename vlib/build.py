"""Builds spectralDNS out of tree from /repo's current working tree.

A *tree* is a scratch directory that holds a copy of the package's source files
(tracked or untracked-but-not-ignored), plus the compiled extensions a flavour
needs.  Compiled products are kept under a key made of the content of the
sources, the build scripts and the flavour, so nothing stale can be picked up.

Flavours
    none    no compiled extension (periodic solvers, NumPy implementations)
    lu      LUsolve only (channel solvers)
    all     every extension, compiled by the repository's own build class
    bounds  the Cython extensions with boundscheck/nonecheck on
    asan    the Cython extensions with AddressSanitizer + UBSan
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

from . import env as E

OPT = 'spectralDNS/optimization'
NATIVE = ['setup.py', OPT + '/setup.py', OPT + '/pythran_maths.py',
          'spectralDNS/shen/LUsolve.pyx']


class BuildError(Exception):
    pass


def _files():
    """Source files of /repo's working tree, as relative paths."""
    out = []
    for top in ('spectralDNS', 'demo', 'cpp'):
        for d, dirs, names in os.walk(os.path.join(E.REPO, top)):
            dirs[:] = [x for x in dirs if x not in ('__pycache__', '.git', 'build')]
            for n in names:
                rel = os.path.relpath(os.path.join(d, n), E.REPO)
                if _generated(rel):
                    continue
                out.append(rel)
    for n in ('setup.py', 'README.rst', 'LICENSE'):
        if os.path.exists(os.path.join(E.REPO, n)):
            out.append(n)
    return sorted(out)


def _generated(rel):
    b = os.path.basename(rel)
    if b.endswith(('.so', '.o', '.pyc', '.h5', '.xdmf', '.swp')):
        return True
    if rel.startswith(OPT) or rel.startswith('spectralDNS/shen/'):
        if b.endswith(('.c', '.cpp')):
            return True
        if b.startswith('cython_') and b.endswith('.pyx'):
            return True
    return False


def _sha(paths, *more):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(os.path.join(E.REPO, p), 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for m in more:
        h.update(str(m).encode() + b'\0')
    return h.hexdigest()[:20]


def native_sources(files=None):
    files = files or _files()
    return [f for f in files if f in NATIVE or
            (f.startswith(OPT) and f.endswith(('.in', '.pyx', '.pxd', '.h', '.hpp'))) or
            (f.startswith('spectralDNS/shen/') and f.endswith(('.pyx', '.pxd', '.h')))]


def copy_sources(dst):
    for f in _files():
        os.makedirs(os.path.dirname(os.path.join(dst, f)), exist_ok=True)
        shutil.copyfile(os.path.join(E.REPO, f), os.path.join(dst, f))


BUILD_SCRIPT = r'''
import os, sys
sys.argv = ["setup.py"]
flavour = os.environ["VERIF_FLAVOUR"]
sys.path.insert(0, os.getcwd())
import importlib.util
spec = importlib.util.spec_from_file_location("sdns_setup", "setup.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
exts = m.get_extension()
cmd = m.build_ext_subclass
if flavour == "lu":
    exts = [e for e in exts if e.name.endswith("LUsolve")]
if flavour in ("bounds", "asan"):
    exts = [e for e in exts if "pythran" not in e.name]
    from setuptools.command.build_ext import build_ext
    from numpy import get_include
    from Cython.Build import cythonize
    dirs = {"language_level": 2}
    if flavour == "bounds":
        dirs.update(boundscheck=True, nonecheck=True, initializedcheck=True)
    else:
        dirs.update(boundscheck=False)
    ca = {"bounds": ["-g0", "-w", "-O1"],
          # clang: gcc does not instrument accesses to parts of complex numbers
          "asan": ["-g1", "-w", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-shared-libasan",
                   "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"]}[flavour]
    la = {"bounds": [], "asan": ["-fsanitize=address,undefined", "-shared-libasan"]}[flavour]
    if flavour == "asan":
        os.environ.update(CC="clang", CXX="clang++", LDSHARED="clang -shared", LDCXXSHARED="clang++ -shared")
    for e in exts:
        e.include_dirs.append(get_include())
        e.extra_compile_args += ca
        e.extra_link_args += la
    # command line directives win over the directives in the source files
    import Cython.Compiler.Options as O
    out = []
    for e in exts:
        src = []
        for s in e.sources:
            out_cpp = s[:-4] + ".cpp"
            import subprocess
            args = [sys.executable, "-m", "cython", "-2", "--cplus", s, "-o", out_cpp]
            for k, v in dirs.items():
                if k != "language_level":
                    args += ["-X", "%s=%s" % (k, v)]
            out.append(subprocess.Popen(args))
            src.append(out_cpp)
        e.sources = src
    assert all(p.wait() == 0 for p in out), "cython failed"
    cmd = build_ext
from setuptools import setup
setup(name="spectralDNS", version="0", ext_modules=exts, cmdclass={"build_ext": cmd},
      packages=["spectralDNS", "spectralDNS.optimization", "spectralDNS.shen"],
      script_args=["build_ext", "--inplace", "-j", "8"])
'''


def _build_native(flavour, key, store):
    """Compiles into store/ (a directory of .so and generated files, relative paths kept)."""
    work = tempfile.mkdtemp(prefix='sdns-build-', dir=E.CACHE)
    try:
        copy_sources(work)
        before = set(_walk(work))
        script = os.path.join(work, '_verif_build.py')
        with open(script, 'w') as f:
            f.write(BUILD_SCRIPT)
        ev = E.base_env(work, {'VERIF_FLAVOUR': flavour})
        p = subprocess.run([E.PY, script], cwd=work, env=ev, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        new = [f for f in _walk(work) if f not in before and f.endswith('.so') and
               f.startswith('spectralDNS')]
        if p.returncode != 0 or not new:
            raise BuildError('build of flavour %s failed:\n%s' % (flavour, p.stdout[-4000:]))
        tmp = store + '.tmp%d' % os.getpid()
        for f in new:
            os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
            shutil.move(os.path.join(work, f), os.path.join(tmp, f))
        # generated python stubs
        os.rename(tmp, store)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _walk(top):
    for d, dirs, names in os.walk(top):
        for n in names:
            yield os.path.relpath(os.path.join(d, n), top)


def native_dir(flavour):
    os.makedirs(E.CACHE, exist_ok=True)
    key = _sha(native_sources(), flavour, BUILD_SCRIPT)
    store = os.path.join(E.CACHE, 'native-%s-%s' % (flavour, key))
    with open(os.path.join(E.CACHE, 'lock-' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(store):
            _prune('native-%s-' % flavour, 3)
            _build_native(flavour, key, store)
    return store


def _prune(prefix, keep):
    try:
        old = sorted((os.path.getmtime(os.path.join(E.CACHE, n)), n)
                     for n in os.listdir(E.CACHE) if n.startswith(prefix))
    except OSError:
        return
    for _, n in old[:-keep] if keep else old:
        shutil.rmtree(os.path.join(E.CACHE, n), ignore_errors=True)


def make_tree(flavour, where):
    """Assembles a tree in directory `where` (created) and returns it."""
    os.makedirs(where, exist_ok=True)
    copy_sources(where)
    if flavour != 'none':
        store = native_dir(flavour)
        for f in _walk(store):
            os.makedirs(os.path.dirname(os.path.join(where, f)), exist_ok=True)
            shutil.copyfile(os.path.join(store, f), os.path.join(where, f))
    return where


def source_hash():
    return _sha(_files())


def build_cpp(where, sanitize=None, cflags=()):
    """Compiles cpp/spectralDNS.cpp to where/<name>; returns the path."""
    os.makedirs(where, exist_ok=True)
    out = os.path.join(where, 'spectralDNS_cpp' + ('_' + sanitize.replace(',', '_') if sanitize else ''))
    src = os.path.join(E.REPO, 'cpp', 'spectralDNS.cpp')
    flags = ['-O2'] + list(cflags)
    if sanitize:
        flags = ['-O1', '-g', '-fsanitize=' + sanitize, '-fno-omit-frame-pointer'] + list(cflags)
    cmd = ['mpicxx'] + flags + [src, '-o', out, '-lfftw3_mpi', '-lfftw3', '-lm']
    ev = E.base_env()
    if sanitize:
        ev['OMPI_CXX'] = 'clang++'
    p = subprocess.run(cmd, env=ev, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('cpp build failed: ' + p.stderr[-3000:])
    return out
