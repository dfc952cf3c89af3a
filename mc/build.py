"""Builds queueing_tool from /repo's working tree into a private directory and imports it.

The extension modules are compiled from the .pyx sources (the committed .c files do not
compile here).  Nothing is written to /repo.  The result is cached under /verif/.cache by a
digest of the sources, so that a second check on the same tree does not compile again.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'queueing_tool')


class BuildError(Exception):
    pass


def _sources():
    out = []
    for base, dirs, files in os.walk(PKG):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h')):
                p = os.path.join(base, f)
                out.append((os.path.relpath(p, PKG), open(p, 'rb').read()))
    return out


def _version():
    try:
        txt = open(os.path.join(REPO, 'pyproject.toml')).read()
        return re.search(r'^version\s*=\s*"([^"]+)"', txt, re.M).group(1)
    except (OSError, AttributeError):
        return '0'


def asan_library():
    return ' '.join(subprocess.check_output(['gcc', '-print-file-name=' + lib], text=True).strip()
                    for lib in ('libasan.so', 'libstdc++.so'))      # the latter for extension modules in C++


def _listed(name):
    """Is this an extension module of the package (others are left-overs)?"""
    if name in ('network/priority_queue', 'queues/choice'):
        return True
    try:
        txt = open(os.path.join(REPO, 'setup.py')).read()
    except OSError:
        return False
    return 'queueing_tool/%s.' % name in txt


def _compile(src, flags, tmp, cache, asan):
    """The extension modules of the package in `tmp`, compiled once per version of their sources."""
    native = [(rel, data) for rel, data in src if not rel.endswith('.py')]
    exts = [rel[:-4] for rel, _ in native if rel.endswith('.pyx') and _listed(rel[:-4])]
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    sha = hashlib.sha256(repr((native, flags, sys.version)).encode()).hexdigest()[:20]
    kept = os.path.join(cache, 'ext-' + sha)
    if not os.path.isdir(kept):
        script = []
        for e in exts:
            p = os.path.join(tmp, 'queueing_tool', e)
            script.append('(%s -W ignore -m cython %s.pyx -o %s.c && gcc %s %s.c -o %s%s) &' % (
                sys.executable, p, p, ' '.join(flags), p, p, suffix))
        script.append('rc=0; for j in $(jobs -p); do wait $j || rc=1; done; exit $rc')
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONMALLOC')}
        r = subprocess.run(['bash', '-c', '\n'.join(script)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        part = tempfile.mkdtemp(prefix='tmp-', dir=cache)
        for e in exts:
            dst = os.path.join(part, e + suffix)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(tmp, 'queueing_tool', e + suffix), dst)
        try:
            os.rename(part, kept)
        except OSError:
            shutil.rmtree(part, ignore_errors=True)
    else:
        for e in exts:
            shutil.copy(os.path.join(kept, e + suffix), os.path.join(tmp, 'queueing_tool', e + suffix))
    olds = sorted((d for d in os.listdir(cache) if d.startswith('ext-')), key=lambda d: os.path.getmtime(os.path.join(cache, d)))
    for d in olds[:-6]:
        shutil.rmtree(os.path.join(cache, d), ignore_errors=True)


def build(asan=False):
    """Returns the directory to put first on sys.path."""
    src = _sources()
    flags = ['-O1', '-w', '-fwrapv', '-shared', '-fPIC', '-I' + sysconfig.get_config_var('INCLUDEPY')]
    if asan:
        flags += ['-g', '-fsanitize=address', '-fno-omit-frame-pointer']
    sha = hashlib.sha256(repr((src, flags, sys.version)).encode()).hexdigest()[:20]
    cache = os.path.join(ROOT, '.cache')
    os.makedirs(cache, exist_ok=True)
    final = os.path.join(cache, ('asan-' if asan else 'pkg-') + sha)
    if os.path.isdir(final):
        return final
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=cache)
    try:
        for rel, data in src:
            dst = os.path.join(tmp, 'queueing_tool', rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, 'wb') as f:
                f.write(data)
        info = os.path.join(tmp, 'queueing_tool-%s.dist-info' % _version())
        os.makedirs(info)
        with open(os.path.join(info, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: queueing_tool\nVersion: %s\n' % _version())
        _compile(src, flags, tmp, cache, asan)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.isdir(final):
                raise
        olds = sorted((d for d in os.listdir(cache) if d.startswith(('pkg-', 'asan-'))),
                      key=lambda d: os.path.getmtime(os.path.join(cache, d)))
        for d in olds[:-12]:
            shutil.rmtree(os.path.join(cache, d), ignore_errors=True)
        return final
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- random seam
class _Hook(object):
    handler = None      # callable(name, real, args, kwargs) while an execution controls randomness


HOOK = _Hook()
RANDOM_NAMES = ('uniform', 'random', 'rand', 'randint', 'choice', 'exponential', 'random_sample',
                'ranf', 'sample', 'permutation', 'shuffle', 'standard_exponential', 'poisson', 'binomial',
                'multinomial', 'standard_normal', 'normal', 'gamma', 'bytes', 'random_integers', 'randn')


def _wrap(name, real):
    def draw(*args, **kwargs):
        h = HOOK.handler
        if h is None:
            return real(*args, **kwargs)
        return h(name, real, args, kwargs)
    draw.__name__ = name
    return draw


def load(asan=False):
    """Imports the freshly built package with the random seam in place; returns the module."""
    path = build(asan)
    sys.path.insert(0, path)
    sys.dont_write_bytecode = True
    import numpy as np
    for name in RANDOM_NAMES:
        real = getattr(np.random, name, None)
        if real is not None:
            setattr(np.random, name, _wrap(name, real))
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import queueing_tool
    if not os.path.abspath(queueing_tool.__file__).startswith(path):
        raise BuildError('imported the wrong queueing_tool: ' + queueing_tool.__file__)
    return queueing_tool
