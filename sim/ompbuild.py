"""Builds the modules of the current tree for the simulated OpenMP runtime: the same generated C, compiled with the thread
sanitizer's instrumentation of memory accesses, linked with neither libgomp nor libtsan."""

import ctypes
import fcntl
import os
import shutil
import subprocess
import sysconfig
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
PLAIN = ('wrappers/',)          # never executed inside a parallel region
GIL = ['-D%s=sim_%s' % (f, f) for f in ('PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread',
                                        'PyEval_RestoreThread')]


def ensure(d):
    """d: directory of the ordinary build; returns the directory of the instrumented one."""
    dest = os.path.join(d, 'omp')
    src = os.path.join(HERE, 'ompsim.c')
    mark = os.path.join(dest, '.ok-%d' % int(os.path.getmtime(src)))
    with open(os.path.join(d, 'omp.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(mark):
            return dest
        if not os.path.exists(os.path.join(dest, '.modules')):
            shutil.rmtree(dest, ignore_errors=True)
            os.makedirs(dest)
            modules(d, dest)
            open(os.path.join(dest, '.modules'), 'w').close()
        subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-o', os.path.join(dest, 'ompsim.so'), src])
        open(mark, 'w').close()
    return dest


def modules(d, dest):
    import numpy
    inc = ['-I'+sysconfig.get_paths()['include'], '-I'+numpy.get_include()]
    jobs = []
    for root, dirs, files in os.walk(os.path.join(d, 'qmeq')):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        rel = os.path.relpath(root, d)
        os.makedirs(os.path.join(dest, rel), exist_ok=True)
        for f in sorted(files):
            p = os.path.join(rel, f)
            if f.endswith('.py'):
                shutil.copyfile(os.path.join(d, p), os.path.join(dest, p))
            elif f.endswith(SUFFIX):
                c = p[:-len(SUFFIX)]+'.c'
                if any(x in p for x in PLAIN):
                    shutil.copyfile(os.path.join(d, p), os.path.join(dest, p))
                else:
                    jobs.append((os.path.join(d, c), os.path.join(dest, p)))

    def one(job):
        c, so = job
        o = so[:-3]+'.o'
        subprocess.check_call(['gcc', '-O1', '-g0', '-w', '-fPIC', '-fopenmp', '-fsanitize=thread', '-fwrapv', '-DNDEBUG',
                               '-c', c, '-o', o]+GIL+inc, env=dict(os.environ, PATH='/usr/local/bin:/usr/bin:/bin'))
        subprocess.check_call(['gcc', '-shared', o, '-o', so])
        os.remove(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def load(dest):
    """Makes the runtime's symbols visible to every extension module imported later."""
    return ctypes.CDLL(os.path.join(dest, 'ompsim.so'), mode=ctypes.RTLD_GLOBAL)
