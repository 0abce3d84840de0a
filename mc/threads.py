"""Controlled scheduler for real threads running the real library.

Every thread runs under sys.settrace; each traced event inside the package (a line, a function entry or exit, or a
byte code, depending on the granularity) is a scheduling point at which the thread only continues when it holds the
baton.  A schedule is a list of segments (thread, number of points); the last segments run to completion.  A thread
that holds the baton and makes no progress (blocked on a lock of the library held by a preempted thread) loses it to
the other threads, so locks do not stop the exploration; a run that does not end at all is a violation.
"""
import os
import sys
import threading

from .lib import REPO

PKG = os.path.realpath(os.path.join(REPO, "fast_bss_eval")) + os.sep


class Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, n, plan, grain, stall=1.0):
        self.n, self.grain, self.stall = n, grain, stall
        self.plan = list(plan)  # [(tid, points or None)]
        self.cv = threading.Condition()
        self.current, self.left = self.plan[0]
        self.pos = 0
        self.points = [0] * n
        self.done = [False] * n
        self.progress = 0
        self.switches = 0
        self.forced = 0
        self.cache = {}

    def _inpkg(self, code):
        v = self.cache.get(code)
        if v is None:
            v = self.cache[code] = os.path.realpath(code.co_filename).startswith(PKG)
        return v

    def tracer(self, tid):
        grain = self.grain

        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and grain == "line") or (event == "return" and grain == "call"):
                self.point(tid)
            return local

        def glob(frame, event, arg):
            if event != "call" or not self._inpkg(frame.f_code):
                return None
            if grain == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                sys.settrace(sys.gettrace())  # CPython 3.12 only instruments byte codes when the trace function is set
            elif grain == "call":
                frame.f_trace_lines = False
            self.point(tid)
            return local

        return glob

    def _next(self):
        """Give the baton to the next segment whose thread is not done (called with the lock held)."""
        while self.pos + 1 < len(self.plan):
            self.pos += 1
            t, k = self.plan[self.pos]
            if not self.done[t]:
                self.current, self.left = t, k
                self.switches += 1
                self.cv.notify_all()
                return
        for t in range(self.n):
            if not self.done[t]:
                self.current, self.left = t, None
                self.switches += 1
                break
        self.cv.notify_all()

    def point(self, tid):
        with self.cv:
            self.progress += 1
            self.points[tid] += 1
            if self.current == tid and self.left is not None:
                if self.left == 0:
                    self._next()
                else:
                    self.left -= 1
            while self.current != tid:
                before = self.progress
                if not self.cv.wait(self.stall) and self.progress == before and self.current != tid:
                    # the holder is blocked by something we hold
                    self.forced += 1
                    self.current, self.left = tid, None
                    self.cv.notify_all()

    def finish(self, tid):
        with self.cv:
            self.done[tid] = True
            self.progress += 1
            if self.current == tid or self.done[self.current]:
                self._next()

    def run(self, bodies, timeout):
        """bodies: one callable per thread.  Returns [(kind, value)] or None when they never finish."""
        out = [None] * self.n

        def main(tid):
            with self.cv:
                while self.current != tid:
                    before = self.progress
                    if not self.cv.wait(self.stall) and self.progress == before and self.current != tid:
                        self.forced += 1
                        self.current, self.left = tid, None
            sys.settrace(self.tracer(tid))
            try:
                out[tid] = bodies[tid]()
            finally:
                sys.settrace(None)
                self.finish(tid)

        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        import time

        t0 = time.time()
        for t in ts:
            t.join(max(0.0, timeout - (time.time() - t0)))
        if any(t.is_alive() for t in ts):
            return None
        return out


def count_points(body, grain):
    s = Scheduler(1, [(0, None)], grain)
    s.run([body], 60)
    return s.points[0]


class _Probe(Scheduler):
    def point(self, tid):
        v = self.probe()
        self.seen.append(v)
        super().point(tid)


def probe_points(body, grain, probe):
    """The value of probe() at every scheduling point of a call running alone."""
    s = _Probe(1, [(0, None)], grain)
    s.probe, s.seen = probe, []
    s.run([body], 60)
    return s.seen
