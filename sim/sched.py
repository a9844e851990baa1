"""Seeded scheduler for threads: real threads of which exactly one runs at a time.

Control changes hands only at yield points: before any line of a Python function of qmeq, at any call that code of qmeq
(compiled or not) makes into numpy or scipy, and in functions supplied by the user. The schedule is a list of
[gap, choice]: after `gap` more yield points the thread number `choice` among the runnable ones takes over. When the list
is used up, threads run to their end one after another.
"""

import os
import sys
import threading

import qmeq

from . import faults
from .world import faults_hook

QDIR = os.path.dirname(os.path.abspath(qmeq.__file__))


class Scheduler(object):

    def __init__(self, fns, schedule):
        self.fns = fns
        self.schedule = [list(x) for x in schedule]
        self.locks = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        self.done = threading.Semaphore(0)
        self.current = None
        self.left = None
        self.points = 0
        self.switches = []          # (points passed, thread left, where, thread entered)
        self.results = [None]*len(fns)
        self.next_gap()

    def next_gap(self):
        if self.schedule:
            self.left, self.choice = self.schedule.pop(0)
        else:
            self.left = None

    # -- yield points
    def hit(self, where, frame=None):
        me = self.current
        if me is None or threading.current_thread() is not self.threads[me]:
            return
        self.points += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        others = [t for t in self.alive if t != me]
        to = others[self.choice % len(others)] if others else me
        self.next_gap()
        if to != me:
            self.switches.append((self.points, me, where, to))
            self.current = to
            self.locks[to].release()
            self.locks[me].acquire()

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(QDIR):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.hit('%s:%d' % (frame.f_code.co_name, frame.f_lineno))
        return self.local

    def body(self, k):
        self.locks[k].acquire()
        sys.settrace(self.tracer)
        try:
            self.results[k] = ('ok', self.fns[k]())
        except BaseException as e:
            self.results[k] = ('raise', e)
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.alive:
                to = self.alive[0]
                self.current = to
                self.locks[to].release()
            else:
                self.current = None
                self.done.release()

    def run(self):
        self.threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.fns))]
        out = sys.stdout
        try:
            with faults.call_seam(self):
                faults_hook.active = self
                for t in self.threads:
                    t.start()
                self.current = 0
                self.locks[0].release()
                self.done.acquire()
                for t in self.threads:
                    t.join()
        finally:
            faults_hook.active = None
            sys.stdout = out
        return self.results
