# -*- coding: utf-8 -*-
"""
The scheduler: real threads, one at a time.

A thread may only be preempted at a point: a line of gsapi, an operation on the
simulated disk, a lock.  Who goes on at which point is a list of
[step, thread], part of the scenario, so that a run repeats exactly.
"""
from __future__ import absolute_import, division, print_function

import sys
import threading

import env
from prng import mix
from simfs import PATCH, SimCrash

_Semaphore = threading.Semaphore
_Thread = threading.Thread


class Abort(BaseException):
    """The run is over; threads unwind."""


class Stuck(Exception):
    pass


class Task(object):
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _Semaphore(0)
        self.done = False
        self.blocked = None
        self.result = None
        self.error = None
        self.steps = 0
        self.iocall = None
        self.ncall = 0


class Sched(object):
    def __init__(self, switches=(), limit=400000, fs=None):
        self.switches = [list(s) for s in switches]
        self.tasks = []
        self.current = None
        self.step = 0
        self.limit = limit
        self.sig = 0
        self.nswitch = 0
        self.taken = []
        self.over = None
        self.main = _Semaphore(0)
        self.fs = fs
        self.spawned = []

    # ---- running -------------------------------------------------------------
    def add(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def run(self):
        """All tasks to their end."""
        if not self.tasks:
            return
        env.LOCKS.sched = self
        if self.fs is not None:
            self.fs.sched = self
        try:
            self.spawned = [_Thread(target=self._body, args=(t,)) for t in self.tasks]
            for th in self.spawned:
                th.daemon = True
                th.start()
            self.cur = self.tasks[0]
            self.current = 0
            first = self._wanted()
            if first is not None:
                self._enter(first)
            self._load(self.cur)
            self.cur.sem.release()
            self.main.acquire()
            for th in self.spawned:
                th.join()
        finally:
            env.LOCKS.sched = None
            if self.fs is not None:
                self.fs.sched = None
        if self.over:
            raise Stuck(self.over)

    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.over:
                # (Jython holds a lock while it traces: there, only operations on the disk and locks are points)
                if not env.JYTHON:
                    sys.settrace(self._global)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        self._leave()

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            self.point('call', frame)
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point('line', frame)
        return self._local

    # ---- who goes on ------------------------------------------------------------
    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def _wanted(self):
        """The task the scenario wants at this step, if it names one that can run."""
        w = None
        while self.switches and self.switches[0][0] <= self.step:
            w = self.switches.pop(0)[1]
        if w is None or not self.tasks:
            return None
        t = self.tasks[w % len(self.tasks)]
        if t.done or t.blocked is not None:
            return None
        return t

    def _save(self, t):
        if self.fs is not None:
            t.iocall, t.ncall = self.fs.call, self.fs.ncall

    def _load(self, t):
        if self.fs is not None:
            self.fs.call, self.fs.ncall = t.iocall, t.ncall

    def _enter(self, t):
        self.nswitch += 1
        self.taken.append([self.step, t.tid])
        self.cur = t
        self.current = t.tid

    def _switch(self, t):
        me = self.cur
        self._save(me)
        self._enter(t)
        self._load(t)
        t.sem.release()
        me.sem.acquire()
        if self.over:
            raise Abort()

    def point(self, what, frame=None):
        if self.over:
            raise Abort()
        self.step += 1
        self.cur.steps += 1
        if self.step > self.limit:
            self._stop('no end after %d steps' % self.limit)
        if self.switches and self.switches[0][0] <= self.step:
            t = self._wanted()
            if t is not None and t is not self.cur:
                where = '%s:%d' % (frame.f_code.co_name, frame.f_lineno) if frame is not None else what
                self.sig = mix(self.sig, self.cur.tid, where, t.tid)
                self._switch(t)

    def block(self, lock):
        self.cur.blocked = lock
        r = self._runnable()
        if not r:
            self._stop('deadlock')
        self._switch(r[0])

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None

    def _stop(self, why):
        self.over = why
        raise Abort()

    def _leave(self):
        """The running task is at its end."""
        if self.over:
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
            if all(t.done for t in self.tasks):
                self.main.release()
            return
        r = self._runnable()
        if not r:
            if any(not t.done for t in self.tasks):
                self.over = 'deadlock'
                for t in self.tasks:
                    if not t.done:
                        t.sem.release()
                return
            self.main.release()
            return
        t = self._wanted()
        if t is None:
            t = r[0]
        self.sig = mix(self.sig, 'end', self.cur.tid, t.tid)
        self._enter(t)
        self._load(t)
        t.sem.release()


# ---- one thread: counting steps, interrupting at one ------------------------------------
class Interrupter(object):
    """Runs fn in this thread; raises at the k-th line of gsapi, if asked to."""

    def __init__(self, at=None, exc=KeyboardInterrupt, limit=3000000, calls_only=False):
        self.at = at
        self.exc = exc
        self.n = 0
        self.limit = limit
        self.fired = False
        self.calls_only = calls_only
        self.where = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            self._step(frame)
            return None if self.calls_only else self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self._step(frame)
        return self._local

    def _step(self, frame):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            self.where = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
            raise self.exc()
        if self.n > self.limit:
            raise Stuck('no end after %d steps' % self.limit)

    def __call__(self, fn, *a, **k):
        sys.settrace(self._global)
        try:
            return fn(*a, **k)
        finally:
            sys.settrace(None)
