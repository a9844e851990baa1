"""Builds the current working tree of the repository in a scratch directory under /verif/.build.

Nothing is written to the repository.  Extension modules lying beside the sources are reused only when the content
hashes recorded by the repository's build say that they were compiled from exactly these sources; everything else is
compiled here with the repository's own setup.py.
"""

import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
PY = '/opt/venv/bin/python'
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


class BuildError(Exception):
    pass


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def source_files():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, 'qmeq')):
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'tests'))
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.pxi', '.h')):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def toolchain():
    import Cython
    import numpy
    import scipy
    return [sys.version, Cython.__version__, numpy.__version__, scipy.__version__]


def tree_key():
    hashes = {p: digest(os.path.join(REPO, p)) for p in source_files()}
    hashes['setup.py'] = digest(os.path.join(REPO, 'setup.py'))
    blob = json.dumps([hashes, toolchain(), open(__file__).read()], sort_keys=True)
    return hashlib.sha256(blob.encode()).hexdigest()[:16], hashes


def reusable(hashes):
    """Relative paths (without extension) of the .pyx files whose compiled module may be reused."""
    try:
        with open(os.path.join(REPO, 'build', 'vp-hashes.json')) as f:
            state = json.load(f)
        shared = dict(state['shared'])
        if shared.pop('toolchain') != toolchain():
            return set()
        now = {p: h for p, h in hashes.items() if p.endswith(('.pxd', '.pxi')) or p == 'setup.py'}
        if shared != now:
            return set()
        ok = set()
        for p, h in state['pyx'].items():
            base = p[:-4]
            if hashes.get(p) == h and os.path.exists(os.path.join(REPO, base + SUFFIX)):
                ok.add(base)
        return ok
    except (OSError, ValueError, KeyError, TypeError):
        return set()


def env():
    e = dict(os.environ)
    e.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', CC='gcc',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    for k in ('PYTHONPATH', 'LD_PRELOAD', 'GLIBC_TUNABLES', 'CFLAGS', 'LDFLAGS'):
        e.pop(k, None)
    return e


def ensure(verbose=True):
    """Returns the directory that holds a built copy of the package (to be put on PYTHONPATH)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _ensure(verbose)


def _ensure(verbose):
    key, hashes = tree_key()
    dest = os.path.join(BUILD, key)
    if os.path.exists(os.path.join(dest, '.ok')):
        os.utime(os.path.join(dest, '.ok'))
        return dest
    t0 = time.time()
    prune()
    tmp = dest + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    old = time.time() - 10*24*3600
    for p in list(hashes):
        q = os.path.join(tmp, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, p), q)
        os.utime(q, (old, old))
    readme = os.path.join(REPO, 'README.rst')
    if os.path.exists(readme):
        shutil.copyfile(readme, os.path.join(tmp, 'README.rst'))
    os.makedirs(os.path.join(tmp, 'qmeq', 'tests'), exist_ok=True)
    reuse = reusable(hashes)
    for base in sorted(reuse):
        for ext in ('.c', SUFFIX):
            src = os.path.join(REPO, base + ext)
            if os.path.exists(src):
                shutil.copyfile(src, os.path.join(tmp, base + ext))
    pyx = [p[:-4] for p in hashes if p.endswith('.pyx')]
    todo = [b for b in pyx if b not in reuse]
    if todo:
        r = subprocess.run([PY, 'setup.py', 'build', '--build-base', os.path.join(tmp, 'obj'), 'build_ext', '--inplace',
                            '--cython', '-j8'], cwd=tmp, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        missing = [b for b in pyx if not os.path.exists(os.path.join(tmp, b + SUFFIX))]
        if r.returncode != 0 or missing:
            raise BuildError('the current tree does not build (%s)\n%s' % (missing, r.stdout[-3000:]))
        shutil.rmtree(os.path.join(tmp, 'obj'), ignore_errors=True)
    with open(os.path.join(tmp, '.ok'), 'w') as f:
        json.dump({'compiled': todo, 'reused': sorted(reuse), 'wall_s': time.time() - t0}, f)
    os.rename(tmp, dest)
    if verbose:
        print('build: %s (%d modules compiled, %d reused, %.1f s)' % (dest, len(todo), len(reuse), time.time() - t0))
    return dest


def prune(keep=3):
    """Removes all but the newest builds."""
    items = []
    for n in os.listdir(BUILD):
        p = os.path.join(BUILD, n)
        if os.path.isdir(p):
            ok = os.path.join(p, '.ok')
            items.append((os.path.getmtime(ok) if os.path.exists(ok) else 0, p))
    items.sort()
    for _, p in items[:max(0, len(items) - keep)]:
        shutil.rmtree(p, ignore_errors=True)


if __name__ == '__main__':
    print(ensure())
