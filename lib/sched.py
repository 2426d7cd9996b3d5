"""Controlled thread scheduler: explores all interleavings (up to a preemption bound) of real threads running real code.

Threads are real, but exactly one of them runs at any time. A scheduling point is offered before each bytecode instruction that
can touch shared state (attribute/item access, calls) in the watched source files, and at every lock operation. The exploration is
stateless: choices are replayed from a prefix and the last choice with an untried alternative is advanced until none remains."""
from __future__ import annotations

import dis
import sys
import threading

RealThread, RealSemaphore, RealLock = threading.Thread, threading.Semaphore, threading.Lock
SHARED = ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "CALL")


class Abort(BaseException):
    pass


class Run:
    def __init__(self, prefix, bound):
        self.prefix, self.bound = prefix, bound
        self.trace: list[list[int]] = []
        self.preemptions = 0
        self.finished: set[int] = set()
        self.blocked: dict[int, object] = {}
        self.current = None
        self.sems = {}
        self.aborted = False
        self.deadlock = False
        self.done = RealSemaphore(0)

    def _pick(self, n):
        pos = len(self.trace)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        c = min(c, n - 1)
        self.trace.append([c, n])
        return c

    def enabled(self):
        return [t for t in self.sems if t not in self.finished and t not in self.blocked]

    def point(self, me):
        """scheduling point of thread me, which might be finished or blocked by now"""
        if self.aborted:
            raise Abort()
        en = self.enabled()
        if not en:
            if len(self.finished) == len(self.sems):
                self.done.release()
                return
            self.deadlock = True
            self.abort()
            raise Abort()
        if me in en:
            opts = [me] + [t for t in en if t != me]
            if self.preemptions >= self.bound:
                opts = [me]
        else:
            opts = en
        nxt = opts[self._pick(len(opts))] if len(opts) > 1 else opts[0]
        if nxt == me:
            return
        if me in en:
            self.preemptions += 1
        self.current = nxt
        self.sems[nxt].release()
        if me not in self.finished:
            self.sems[me].acquire()
            if self.aborted:
                raise Abort()

    def abort(self):
        self.aborted = True
        for t, s in self.sems.items():
            s.release()
        self.done.release()


_RUN: Run | None = None
_LOCAL = threading.local()


class CtlLock:
    """a lock whose contention is decided by the scheduler; behaves as a plain lock for threads outside of it"""

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        run, me = _RUN, getattr(_LOCAL, "tid", None)
        if run is None or me is None:
            if self.owner is not None:
                raise RuntimeError("lock acquired while held: deadlock")
            self.owner = "main"
            return True
        run.point(me)
        while self.owner is not None:
            if not blocking:
                return False
            run.blocked[me] = self
            run.point(me)
        self.owner = me
        return True

    def release(self):
        run = _RUN
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if run is not None:
            for t in [t for t, lk in run.blocked.items() if lk is self]:
                del run.blocked[t]

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CtlRLock(CtlLock):
    def __init__(self):
        super().__init__()
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_LOCAL, "tid", "main")
        if self.owner != me or self.owner is None:
            if not super().acquire(blocking, timeout):
                return False
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            super().release()

    __enter__ = acquire


_OPS: dict = {}


def _interesting(code):
    ops = _OPS.get(code)
    if ops is None:
        ops = _OPS[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname.startswith(SHARED))
    return ops


def one_run(thunks, prefix, bound, files):
    """runs the thunks as threads under the given schedule; returns (run, results)"""
    global _RUN
    run = _RUN = Run(prefix, bound)
    results: dict = {}

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith(files):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        ops = _interesting(frame.f_code)
        me = _LOCAL.tid

        def local(frame, event, arg):
            if event == "opcode" and frame.f_lasti in ops and not run.aborted:
                run.point(me)
            return local

        return local

    def body(tid, thunk):
        _LOCAL.tid = tid
        run.sems[tid].acquire()
        try:
            if not run.aborted:
                sys.settrace(tracer)
                try:
                    results[tid] = ("ok", thunk())
                finally:
                    sys.settrace(None)
        except Abort:
            results[tid] = ("abort", None)
        except Exception as e:  # noqa: BLE001
            results[tid] = ("raise", e)
        finally:
            sys.settrace(None)
            run.finished.add(tid)
            try:
                if not run.aborted:
                    run.point(tid)
            except Abort:
                pass

    threads = []
    for tid, th in enumerate(thunks):
        run.sems[tid] = RealSemaphore(0)
    for tid, th in enumerate(thunks):
        t = RealThread(target=body, args=(tid, th), daemon=True)
        t.start()
        threads.append(t)
    # the first thread to run is a choice as well, but not a preemption
    first = run._pick(len(thunks)) if len(thunks) > 1 else 0
    run.current = first
    run.sems[first].release()
    run.done.acquire()
    for t in threads:
        t.join(5)
    _RUN = None
    return run, results


def explore(make, *, bound=2, files=(), max_runs=200000):
    """make() -> (thunks, context); yields (context, results, run) for each schedule"""
    prefix: list[int] = []
    runs = 0
    while True:
        thunks, ctx = make()
        run, results = one_run(thunks, prefix, bound, tuple(files))
        yield ctx, results, run
        runs += 1
        t = run.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [x[0] for x in t[:-1]] + [t[-1][0] + 1]
        if runs >= max_runs:
            raise RuntimeError(f"more than {max_runs} schedules")
