"""Simulated files: Python's own file objects over a raw layer whose operations follow a plan of faults.

Only paths below one scratch directory are simulated; everything above the raw layer (text and buffer layers of the io
module) is real. Points are the calls of the raw layer: open, write, close.
"""

import builtins
import errno
import io
import os


class Plan(object):
    """What happens at the raw layer.

    fault: None or {'at': 'open'|'write'|'close'|'full'|'kill', 'k': index of the call, 'errno': name, 'torn': bytes,
                    'once': bool}
    short: number of bytes that one write takes at most (None: all)
    """

    def __init__(self, root, fault=None, short=None):
        self.root = os.path.realpath(root)
        self.fault, self.short = fault, short
        self.n = {'open': 0, 'write': 0, 'close': 0}
        self.bytes = 0
        self.fired = 0

    def ours(self, path):
        if isinstance(path, int):
            return False
        p = os.path.realpath(os.fspath(path))
        return p.startswith(self.root+os.sep)

    def error(self):
        self.fired += 1
        e = self.fault['errno']
        if e == 'KeyboardInterrupt':
            raise KeyboardInterrupt('injected fault')
        raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)))

    def meets(self, what):
        k = self.n[what]
        self.n[what] += 1
        f = self.fault
        if f is None or f['at'] != what:
            return False
        return k == f['k'] if f['once'] else k >= f['k']

    def write(self, raw, b):
        f = self.fault
        view = memoryview(b).cast('B')
        n = len(view)
        if self.short is not None:
            n = min(n, self.short)
        if f is not None and f['at'] == 'kill':
            k = self.n['write']
            self.n['write'] += 1
            if k >= f['k']:
                io.FileIO.write(raw, view[:min(f['torn'], n)])
                os._exit(77)
            return io.FileIO.write(raw, view[:n])
        if f is not None and f['at'] == 'full':
            self.n['write'] += 1
            left = f['k']-self.bytes
            if left <= 0:
                self.error()
            n = min(n, left)
        elif self.meets('write'):
            if f['torn'] and not self.fired:
                # the device takes a part, the error shows at the next call
                self.fired += 0
                f = dict(f)
                part = min(f['torn'], n)
                if part < len(view):
                    self.fault = dict(f, torn=0, k=self.n['write'])
                    self.bytes += part
                    return io.FileIO.write(raw, view[:part])
            self.error()
        self.bytes += n
        return io.FileIO.write(raw, view[:n])


class SimRaw(io.FileIO):

    def __init__(self, plan, path, mode):
        self.plan = plan
        io.FileIO.__init__(self, path, mode)

    def write(self, b):
        return self.plan.write(self, b)

    def close(self):
        was = self.closed
        io.FileIO.close(self)
        if not was and self.plan.meets('close'):
            self.plan.error()


class files(object):
    """Context in which open() of paths below plan.root goes through the plan."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        plan, real = self.plan, io.open
        self.saved = builtins.open, io.open

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not plan.ours(file):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if plan.meets('open'):
                plan.error()
            rawmode = ''.join(c for c in mode if c not in 'bt')
            raw = SimRaw(plan, os.fspath(file), rawmode)
            if 'b' in mode and buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in mode:
                buf = io.BufferedRandom(raw, size)
            elif 'r' in mode:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        builtins.open = io.open = sim_open
        return plan

    def __exit__(self, *a):
        builtins.open, io.open = self.saved
