"""Controlled scheduler for Python threads: stateless, preemption-bounded exploration of the real code.

One thread runs at a time.  sys.settrace gives scheduling points at every call, line, return - or every byte code
instruction - in files of the code under test (mode "ops", "lines" or "calls"); a plan says after how many points which thread is preempted.
Locks which the code under test creates through the threading module are cooperative: a thread which can't get one
hands over to the next runnable thread.  The exploration is deterministic: the same plan gives the same execution.
"""
import os
import sys
import threading
import time

RealLock, RealRLock = threading.Lock, threading.RLock
_current = threading.local()


class Deadlock(Exception):
    pass


class CoopLock:
    """threading.Lock / RLock for controlled threads; an ordinary lock for others"""

    def __init__(self, real):
        self._lock = real()

    def acquire(self, blocking=True, timeout=-1):
        run = getattr(_current, "run", None)
        if run is None or not blocking:
            return self._lock.acquire(blocking, timeout) if blocking else self._lock.acquire(False)
        while not self._lock.acquire(False):
            run.blocked(_current.tid)
        run.progress()
        return True

    def release(self):
        self._lock.release()
        run = getattr(_current, "run", None)
        if run is not None:
            run.progress()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._lock.locked()

    def __getattr__(self, name):
        return getattr(self._lock, name)


class coop_locks:
    """with coop_locks(): import the code under test"""

    def __enter__(self):
        threading.Lock = lambda: CoopLock(RealLock)
        threading.RLock = lambda: CoopLock(RealRLock)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = RealLock, RealRLock


class Run:
    """Execute the functions as threads under the plan [(tid, points), ...]"""

    def __init__(self, funcs, plan, root, mode="lines", wait=20):
        self.funcs, self.plan, self.root, self.mode, self.wait = funcs, list(plan), root, mode, wait
        self.n = len(funcs)
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.points = [0] * self.n
        self.step = -1
        self.left = None
        self.finished = threading.Semaphore(0)
        self.stuck = 0
        self.free = False
        self.error = None
        self.switches = 0

    # -- plan

    def next_entry(self, me):
        """Begin the next segment of the plan -> the thread which has to run now"""
        self.step += 1
        while self.step < len(self.plan):
            tid, n = self.plan[self.step]
            if not self.done[tid]:
                self.left = n
                return tid
            self.step += 1
        self.left = None
        # the plan is used up: the others to their end; the thread which was preempted last continues last
        order = [t for t in range(self.n) if not self.done[t] and t != me]
        if me is not None and not self.done[me]:
            order.append(me)
        return order[0] if order else None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.left is None:
            sys.settrace(None)
            return None
        if self.mode == "ops":
            frame.f_trace_opcodes = True
        elif self.mode == "calls":
            frame.f_trace_lines = False
        self.local(frame, event, arg)
        return self.local

    def local(self, frame, event, arg):
        if self.left is None:
            # all preemptions are done
            sys.settrace(None)
            frame.f_trace = None
            return None
        tid = _current.tid
        self.points[tid] += 1
        if self.plan and self.step < len(self.plan) and self.plan[self.step][0] == tid:
            self.left -= 1
            if self.left <= 0:
                to = self.next_entry(tid)
                if to is not None and to != tid:
                    self.switches += 1
                    self.switch(tid, to)
        return self.local

    # -- handing over

    def switch(self, me, to):
        self.sems[to].release()
        self.park(me)

    def park(self, me):
        if not self.sems[me].acquire(timeout=self.wait):
            self.error = self.error or "thread %d waits for ever" % me
            raise Deadlock(self.error)

    def progress(self):
        self.stuck = 0

    def blocked(self, me):
        self.stuck += 1
        others = [t for t in range(self.n) if not self.done[t] and t != me]
        if not others or self.stuck > 2 * self.n:
            self.error = "deadlock: no thread can continue"
            raise Deadlock(self.error)
        to = others[(self.stuck - 1) % len(others)]
        self.switch(me, to)

    def body(self, tid):
        _current.run, _current.tid = self, tid
        try:
            self.park(tid)
            sys.settrace(self.trace)
            try:
                self.results[tid] = self.funcs[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[tid] = e
        finally:
            _current.run = None
            self.done[tid] = True
            self.progress()
            rest = [t for t in range(self.n) if not self.done[t]]
            if rest:
                # the entry of a finished thread is over
                if self.left is not None:
                    to = self.next_entry(tid)
                else:
                    to = rest[0]
                self.sems[to if to is not None else rest[0]].release()
            else:
                self.finished.release()

    def go(self):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(self.n)]
        for t in threads:
            t.start()
        first = self.next_entry(None)
        self.sems[first].release()
        ok = self.finished.acquire(timeout=2 * self.wait)
        if not ok:
            self.error = self.error or "the threads don't end"
        else:
            for t in threads:
                t.join()
        return self.results


def points(f, root, mode="lines"):
    """The number of scheduling points of f alone"""
    r = Run([f], [(0, 1 << 60)], root, mode)
    res = r.go()
    return r.points[0], res[0]
