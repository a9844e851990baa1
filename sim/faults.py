"""Fault seams: an exception raised at a chosen point inside an operation of the library.

line    before any line executed by a Python function of qmeq (sys.settrace), the way an interrupt arrives
call    at any call that code of qmeq, compiled or not, makes into numpy or scipy (wrapped module attributes)
alloc   at any allocation of the interpreter's allocators, compiled code included (_testcapi.set_nomemory): MemoryError
bath    in a phonon density of states supplied by the user
malloc  at any malloc of the compiled linear solvers: no memory
linalg  in a linear solver or root finder (numpy.linalg.solve/lstsq, scipy.optimize.root)

Points are numbered by a dry run of the same operation in a forked copy of the process, so `frac` addresses all of them.
"""

import contextlib
import json
import os
import sys
import types

import numpy as np
import scipy.linalg
import scipy.optimize

import qmeq

from .world import faults_hook

QDIR = os.path.dirname(os.path.abspath(qmeq.__file__))

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'LinAlgError': np.linalg.LinAlgError,
       'FloatingPointError': FloatingPointError, 'ZeroDivisionError': ZeroDivisionError, 'SystemExit': SystemExit,
       'OSError': OSError, 'ValueError': ValueError}


class Fault(object):
    """Raises `exc` at the k-th point of a seam (never if k is None); counts the points it meets."""

    def __init__(self, seam, exc, k):
        self.seam, self.k, self.n = seam, k, 0
        self.exc = EXC[exc]('injected fault') if exc in EXC else exc
        self.fired = False
        self.where = None
        self.stack = ()

    def hit(self, where, frame=None):
        self.n += 1
        if self.k is not None and self.n-1 == self.k:
            self.fired = True
            self.where = where
            names = []
            while frame is not None:
                names.append(frame.f_code.co_name)
                frame = frame.f_back
            self.stack = tuple(names)
            raise self.exc


# -- line ------------------------------------------------------------------------------------------------------

@contextlib.contextmanager
def line_seam(f):
    def local(frame, event, arg):
        if event == 'line':
            f.hit('%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno), frame)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(QDIR):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        yield
    finally:
        sys.settrace(old)


# -- calls into numpy and scipy ----------------------------------------------------------------------------------

NP = ['zeros', 'ones', 'empty', 'array', 'dot', 'abs', 'sum', 'sqrt', 'power', 'concatenate', 'matmul', 'copy', 'arange',
      'exp', 'log', 'any', 'all', 'tanh', 'sort', 'searchsorted', 'roots', 'rint', 'real', 'imag', 'nonzero', 'min',
      'max', 'linspace', 'lexsort', 'isclose', 'flatnonzero', 'eye', 'conjugate', 'conj', 'zeros_like', 'asarray',
      'einsum', 'full', 'diag', 'vstack', 'hstack', 'append', 'transpose', 'outer', 'kron', 'trace', 'ascontiguousarray',
      'where', 'cumsum', 'unique', 'argsort', 'isfinite', 'allclose', 'multiply', 'add', 'subtract', 'divide']
LINALG = ['eigh', 'inv', 'solve', 'lstsq', 'eig', 'eigvalsh', 'norm', 'pinv', 'svd']


def targets():
    """(object, attribute) of every numpy or scipy function reachable from code of qmeq."""
    out = [(np, n) for n in NP if callable(getattr(np, n, None))]
    out += [(np.linalg, n) for n in LINALG]
    out += [(scipy.linalg, n) for n in ('solve', 'lstsq', 'eigh', 'inv', 'eigh_tridiagonal', 'eig')]
    out += [(scipy.optimize, 'root')]
    for name, mod in sorted(sys.modules.items()):
        if name.startswith('qmeq') and isinstance(mod, types.ModuleType) and '.tests' not in name:
            for k, v in sorted(vars(mod).items()):
                if callable(v) and not isinstance(v, type) and \
                        (getattr(v, '__module__', None) or '').split('.')[0] in ('numpy', 'scipy'):
                    out.append((mod, k))
    return out


class Seamed(object):
    """A callable standing for a numpy or scipy function."""

    def __init__(self, fn, name, f, depth):
        self.fn, self.name, self.f, self.depth = fn, name, f, depth
        self.__name__ = getattr(fn, '__name__', name)

    def __call__(self, *a, **k):
        fr = sys._getframe(1)
        file = fr.f_code.co_filename
        if not self.depth and ('numpy' not in file and 'scipy' not in file):
            self.f.hit(self.name, fr)
            self.depth.append(1)
            try:
                if self.name == 'root':
                    return self.guarded_root(*a, **k)
                return self.fn(*a, **k)
            finally:
                self.depth.pop()
        return self.fn(*a, **k)

    def guarded_root(self, fun, *a, **k):
        def inner(x, *r):
            self.depth.pop()
            try:
                return fun(x, *r)
            finally:
                self.depth.append(1)
        return self.fn(inner, *a, **k)

    def __getattr__(self, k):
        return getattr(self.fn, k)


@contextlib.contextmanager
def call_seam(f, only=None):
    depth, saved = [], []
    try:
        for obj, name in targets():
            if only is not None and name not in only:
                continue
            v = getattr(obj, name)
            if isinstance(v, Seamed):
                continue
            saved.append((obj, name, v))
        for obj, name, v in saved:
            setattr(obj, name, Seamed(v, name, f, depth))
        yield
    finally:
        for obj, name, v in saved:
            setattr(obj, name, v)


# -- allocations -------------------------------------------------------------------------------------------------

@contextlib.contextmanager
def alloc_seam(f):
    import _testcapi
    if f.k is None:
        yield
        return
    _testcapi.set_nomemory(f.k+1, f.k+2)
    try:
        yield
    finally:
        _testcapi.remove_mem_hooks()


@contextlib.contextmanager
def malloc_seam(f):
    from . import lapack
    m = lapack.mallocs(f.k)
    try:
        with m:
            yield
    except MemoryError as e:
        if m.failed:
            f.exc = e
        raise
    finally:
        f.n, f.fired = m.calls, bool(m.failed)
        if f.fired:
            f.where = 'malloc'


# -- user functions ----------------------------------------------------------------------------------------------

@contextlib.contextmanager
def bath_seam(f):
    faults_hook.active = f
    try:
        yield
    finally:
        faults_hook.active = None


SEAMS = {'line': line_seam, 'call': call_seam, 'alloc': alloc_seam, 'bath': bath_seam, 'malloc': malloc_seam,
         'linalg': lambda f: call_seam(f, ('solve', 'lstsq', 'root'))}


def count(seam, action):
    """Number of points of a seam met by action(), evaluated in a forked copy of this process."""
    if seam == 'alloc':
        return None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = 0
        try:
            os.close(r)
            f = Fault(seam, 'ValueError', None)
            try:
                with SEAMS[seam](f):
                    action()
            except BaseException:
                pass
            n = f.n
        finally:
            try:
                os.write(w, json.dumps(n).encode())
            finally:
                os._exit(0)
    os.close(w)
    data = b''
    while True:
        part = os.read(r, 4096)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode() or '0')


def inject(seam, exc, frac, action):
    """Runs action() with a fault at point int(frac*points); returns (fault, result, exception or None)."""
    n = count(seam, action)
    if n == 0:
        f = Fault(seam, exc, None)
        k = None
    elif n is None:
        k = int(frac)
    else:
        k = min(int(frac*n), n-1)
    f = Fault(seam, exc, k)
    f.points = n
    try:
        with SEAMS[seam](f):
            res = action()
        return f, res, None
    except BaseException as e:
        return f, None, e
