"""Seam for leftover memory: what freshly allocated memory holds is decided by the simulator.

libc's malloc fills every new block with a chosen byte (M_PERTURB), numpy.empty and its relatives fill with a chosen value,
small blocks that numpy keeps for itself and the unused stack are filled by junk().
"""

import contextlib
import ctypes

import numpy as np

from . import lapack

libc = ctypes.CDLL(None)
M_PERTURB = -6
REAL = {k: getattr(np, k) for k in ('empty', 'empty_like')}
FILLS = ('zero', 'nan', 'huge', 'minus', 'noise')


class Memory(object):
    def __init__(self, how, byte, seed):
        self.how, self.byte = how, byte
        self.r = np.random.RandomState(seed)
        self.n = 0

    def fill(self, a):
        self.n += 1
        if not isinstance(a, np.ndarray) or a.dtype.kind not in 'fciub':
            return a
        k, how = a.dtype.kind, self.how
        if k in 'fc':
            v = {'zero': 0.0, 'nan': np.nan, 'huge': 1e30, 'minus': -1.0}.get(how)
            if v is None:
                v = self.r.uniform(-3, 3, a.shape)
            a[...] = v
        elif k == 'b':
            a[...] = how != 'zero' if how != 'noise' else self.r.rand(*a.shape) < 0.5
        else:
            a[...] = {'zero': 0, 'nan': 1, 'huge': 100, 'minus': 255 if k == 'u' else -1}.get(how, self.r.randint(0, 50))
        return a

    def __enter__(self):
        def empty(*a, **k):
            return self.fill(REAL['empty'](*a, **k))

        def empty_like(*a, **k):
            return self.fill(REAL['empty_like'](*a, **k))
        np.empty, np.empty_like = empty, empty_like
        # a new block is filled with the complement of the byte given
        libc.mallopt(M_PERTURB, (self.byte ^ 0xff) or 0x100)
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = REAL['empty'], REAL['empty_like']
        libc.mallopt(M_PERTURB, 0)

    def junk(self):
        """Leaves filled blocks in numpy's cache, the heap and the stack."""
        keep = []
        for size in list(range(1, 128, 3))*2+[200, 300, 500, 1000]:
            keep.append(np.full(size*8, self.byte, dtype=np.uint8))
        del keep
        if lapack.lib is not None:
            lapack.lib.sim_stack(self.byte, ctypes.c_long(60000))


@contextlib.contextmanager
def plain():
    yield None
