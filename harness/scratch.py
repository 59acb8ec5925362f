"""Builds the code under test in a scratch copy of /repo and makes it importable.

The scratch copy is a fresh directory per run, removed at exit.  Compiled extensions that lie
beside the sources are reused only when the recorded hash of their source (and of everything shared)
is that of the present source; everything else is compiled anew."""
import atexit
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_dir = None


class BuildError(Exception):
    pass


def _digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def workdir():
    """The scratch directory of this run."""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='verif-')
        owner = os.getpid()

        def cleanup(path=_dir):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(cleanup)
    return _dir


def _fresh(src):
    """Relative .pyx paths whose compiled form beside the source is up to date."""
    try:
        import Cython
        import numpy
        import scipy
        with open(os.path.join(REPO, 'build', 'vp-hashes.json')) as f:
            old = json.load(f)
        shared = {os.path.relpath(p, src): _digest(p)
                  for e in ('.pxd', '.pxi') for p in glob.glob(src + '/qmeq/**/*' + e, recursive=True)}
        shared['setup.py'] = _digest(src + '/setup.py')
        shared['toolchain'] = [sys.version, Cython.__version__, numpy.__version__, scipy.__version__]
        if old['shared'] != shared:
            return set()
        pyx = {os.path.relpath(p, src): _digest(p) for p in glob.glob(src + '/qmeq/**/*.pyx', recursive=True)}
        return {p for p, h in pyx.items() if old['pyx'].get(p) == h}
    except (OSError, ValueError, KeyError, ImportError):
        return set()


def build():
    """Copies and builds; returns the directory that has to be on sys.path."""
    src = os.path.join(workdir(), 'src')
    os.makedirs(src)
    ignore = shutil.ignore_patterns('__pycache__', '*.pyc', 'tests')
    shutil.copytree(os.path.join(REPO, 'qmeq'), os.path.join(src, 'qmeq'), ignore=ignore)
    for f in ('setup.py', 'README.rst'):
        shutil.copy(os.path.join(REPO, f), src)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    fresh = _fresh(src)
    stale = []
    for p in sorted(glob.glob(src + '/qmeq/**/*.pyx', recursive=True)):
        so, c = p[:-4] + suffix, p[:-4] + '.c'
        if os.path.relpath(p, src) in fresh and os.path.exists(so) and os.path.exists(c):
            continue
        stale.append(p)
        for q in (so, c):
            if os.path.exists(q):
                os.remove(q)
    for p in glob.glob(src + '/qmeq/**/*.c', recursive=True):
        os.utime(p)
    for p in glob.glob(src + '/qmeq/**/*.so', recursive=True):
        os.utime(p)
    if stale:
        env = dict(os.environ, CC='gcc')
        r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--build-temp', os.path.join(workdir(), 'b'),
                            '--inplace', '--cython', '-j8'],
                           cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        missing = [p for p in stale if not os.path.exists(p[:-4] + suffix)]
        if r.returncode or missing:
            raise BuildError('build failed: %s\n%s' % (missing, r.stdout[-1500:]))
    shutil.rmtree(os.path.join(workdir(), 'b'), ignore_errors=True)
    return src


def load():
    """Builds, imports qmeq from the scratch copy and checks that the compiled classes are in use."""
    src = build()
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    qmeq = importlib.import_module('qmeq')
    if not os.path.abspath(qmeq.__file__).startswith(os.path.abspath(src)):
        raise BuildError('qmeq comes from %s' % qmeq.__file__)
    # A failed import of an extension makes qmeq fall back to pure Python silently
    for p in sorted(glob.glob(src + '/qmeq/**/*.pyx', recursive=True)):
        name = os.path.relpath(p, src)[:-4].replace('/', '.')
        mod = importlib.import_module(name)
        if not mod.__file__.endswith('.so'):
            raise BuildError('%s is not compiled' % name)
    return qmeq
