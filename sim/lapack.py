"""Fault seam below the compiled engines: LAPACK calls of qmeq.wrappers.c_lapack can be made to fail.

The function pointers that scipy exports to Cython modules are exchanged before qmeq is imported; install() has to run
first. Nothing in the repository is changed for it.
"""

import ctypes
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
lib = None
_keep = []


def install(where):
    """Compiles the shim into `where` if needed and puts it between scipy's LAPACK and everything imported later."""
    global lib
    if lib is not None:
        return
    src = os.path.join(HERE, 'lapackshim.c')
    so = os.path.join(where, 'lapackshim-%d.so' % int(os.path.getmtime(src)))
    if not os.path.exists(so):
        tmp = so+'.%d' % os.getpid()
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src])
        os.rename(tmp, so)
    lib = ctypes.CDLL(so)
    import scipy.linalg.cython_lapack as cl
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype = ctypes.c_char_p
    api.PyCapsule_GetName.argtypes = [ctypes.py_object]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    for name in ('gesv', 'gelsd'):
        old = cl.__pyx_capi__['d'+name]
        cname = ctypes.create_string_buffer(api.PyCapsule_GetName(old))
        ctypes.c_void_p.in_dll(lib, 'real_'+name).value = api.PyCapsule_GetPointer(old, cname.value)
        ptr = ctypes.cast(getattr(lib, 'shim_'+name), ctypes.c_void_p)
        cl.__pyx_capi__['d'+name] = api.PyCapsule_New(ptr, ctypes.cast(cname, ctypes.c_char_p), None)
        _keep.extend([old, cname])


def _long(name):
    return ctypes.c_long.in_dll(lib, name)


def _int(name):
    return ctypes.c_int.in_dll(lib, name)


class failing(object):
    """Context: solves number first <= k < last (counted from now) fail."""

    def __init__(self, first, last, how=1, info=1):
        self.args = first, last, how, info

    def __enter__(self):
        first, last, how, info = self.args
        _long('calls').value, _long('failed').value = 0, 0
        _long('fail_from').value, _long('fail_to').value = first, last
        _int('fail_how').value, _int('fail_info').value = how, info
        return self

    def __exit__(self, *a):
        self.calls, self.failed = _long('calls').value, _long('failed').value
        _long('fail_from').value = _long('fail_to').value = -1
        return False


_patched = []


class mallocs(object):
    """Context: the k-th malloc of qmeq.wrappers.c_lapack (counted from now) fails; none if k is None."""

    def __init__(self, k):
        self.k, self.calls, self.failed = k, 0, 0

    def __enter__(self):
        if not _patched:
            import qmeq.wrappers.c_lapack as m
            _patched.append(lib.shim_patch_malloc(os.path.basename(m.__file__).encode()))
        _long('malloc_calls').value, _long('malloc_failed').value = 0, 0
        _long('malloc_fail_at').value = -1 if self.k is None else self.k
        return self

    def __exit__(self, *a):
        self.calls, self.failed = _long('malloc_calls').value, _long('malloc_failed').value
        _long('malloc_fail_at').value = -1
        return False
