"""Deterministic two-thread scheduler for real threads.

Scheduling points are the trace events of frames whose code lies in the source
tree under test (every line, or every function entry).  A plan is a list of
points at which the running thread hands over; the others run to completion."""
from __future__ import annotations

import sys
import threading


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, bodies, plan, prefix, lines):
        """plan: list of event numbers; the k-th is counted in the k-th slice."""
        self.bodies = bodies
        self.plan = list(plan)
        self.prefix = prefix
        self.lines = lines
        self.batons = [threading.Semaphore(0) for _ in bodies]
        self.results = [None] * len(bodies)
        self.done = [False] * len(bodies)
        self.count = 0  # events in the present slice
        self.slice = 0
        self.events = [0]  # events per slice
        self.cur = 0

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        self._point()
        return self._local if self.lines else None

    def _local(self, frame, event, arg):
        if event == "line":
            self._point()
        return self._local

    def _point(self):
        me = threading.current_thread().idx
        self.count += 1
        self.events[-1] = self.count
        if self.slice < len(self.plan) and self.count == self.plan[self.slice]:
            nxt = self._other(me)
            if nxt is None:
                return
            self._switch(nxt)
            self.batons[me].acquire()

    def _other(self, me):
        for d in range(1, len(self.bodies)):
            o = (me + d) % len(self.bodies)
            if not self.done[o]:
                return o
        return None

    def _switch(self, nxt):
        self.slice += 1
        self.count = 0
        self.events.append(0)
        self.cur = nxt
        self.batons[nxt].release()

    def _main(self, i):
        self.batons[i].acquire()
        sys.settrace(self._trace)
        try:
            try:
                self.results[i] = ("ok", self.bodies[i]())
            except Exception as e:
                self.results[i] = ("exc", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.done[i] = True
            nxt = self._other(i)
            if nxt is not None:
                self._switch(nxt)

    def go(self, timeout=60):
        ts = []
        for i in range(len(self.bodies)):
            t = threading.Thread(target=self._main, args=(i,), daemon=True)
            t.idx = i
            ts.append(t)
            t.start()
        self.batons[0].release()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                raise Deadlock("the threads did not finish")
        return self.results


def explore(make, prefix, preemptions, lines=True, part=(0, 1)):
    """Run every schedule with at most `preemptions` preemptions; make() returns
    fresh bodies (and must start from the same state).  Yields (plan, results).  part=(r, n)
    takes every n-th position of the first preemption, so that n parts cover all."""
    r = Run(make(), [], prefix, lines)
    yield [], r.go()
    first = r.events[0]

    def rec(plan, limit):
        for i in range(1, limit + 1):
            if not plan and i % part[1] != part[0]:
                continue
            p = plan + [i]
            r = Run(make(), p, prefix, lines)
            res = r.go()
            yield p, res
            if len(p) < preemptions and len(r.events) > len(p):
                yield from rec(p, r.events[len(p)])

    yield from rec([], first)
