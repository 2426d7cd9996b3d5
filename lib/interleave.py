"""Cooperative simulation of processes, pipes and sessions: real code runs in threads of which exactly one is active, every
blocking operation is a scheduling point, and all schedules are explored (the choices come from `choices.Scheduler`)."""
from __future__ import annotations

import pickle
import threading


class Killed(BaseException):
    """the process was terminated: unwinds its thread"""


class Hang(BaseException):
    """nobody can make progress any more"""


class Task:
    def __init__(self, sim, name, fn=None):
        self.sim, self.name, self.fn = sim, name, fn
        self.sem = threading.Semaphore(0)
        self.cond = None
        self.finished = False
        self.term = False  # a termination signal is pending
        self.dead = False  # the signal took effect: the process has no further effects
        self.on_exit = []
        self.steps = 0
        self.die_at = None
        self.raise_at = None
        if fn is not None:
            self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            if not self.sim.over:
                self.fn()
        except BaseException:  # noqa: BLE001 - the process ends, however it ends
            pass
        self.finished = True
        for f in self.on_exit:
            f()
        self.sim.hand_over(None)


class Sim:
    def __init__(self, choices):
        self.choices = choices
        self.tasks = []
        self.clock = 0.0
        self.over = False
        self.hung = False
        self.fine = False  # also offer the schedules which only differ in the order of independent steps
        self.main = Task(self, "main")
        self.tasks.append(self.main)
        self.current = self.main

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        t.thread.start()
        return t

    def _next(self):
        en = [t for t in self.tasks if not t.finished and (t.cond is None or t.term or t.cond())]
        if not en:
            return None
        if self.current in en:
            en.remove(self.current)
            en.insert(0, self.current)
        return en[self.choices.pick(len(en))]

    def hand_over(self, me):
        """me waits (or is gone) and somebody continues"""
        nxt = self._next() if not self.over else self.main
        if nxt is None:
            self.hung = True
            nxt = self.main
        if nxt is me:
            return
        self.current = nxt
        nxt.sem.release()
        if me is not None:
            me.sem.acquire()

    def point(self, cond=None, atomic=False):
        """a scheduling point of the current process, which continues only once the condition holds"""
        me = self.current
        if me.dead:
            raise Killed()
        me.cond = cond
        self.hand_over(me)
        me.cond = None
        if me is self.main and self.hung:
            self.hung_seen = True
            raise Hang()
        if self.over and me is not self.main:
            me.dead = True
            raise Killed()
        me.steps += 1
        if me.steps == me.die_at or (me.term and ((cond is not None and not cond()) or self.choices.pick(2) == 0)):
            me.dead = True
            raise Killed()
        if me.steps == me.raise_at and not atomic:
            raise KeyboardInterrupt()

    def tick(self):
        """a step without effects on others: nothing to schedule, but the process may end or be interrupted here"""
        if self.fine:
            return self.point()
        me = self.current
        if me.dead:
            raise Killed()
        me.steps += 1
        if me.steps == me.die_at:
            me.dead = True
            raise Killed()
        if me.steps == me.raise_at:
            raise KeyboardInterrupt()

    def alive(self):
        """the current process may still have effects"""
        if self.current.dead:
            raise Killed()

    def stop(self):
        self.over = True
        for t in self.tasks:
            if t is not self.main and not t.finished:
                t.dead = True
                self.current = t
                t.sem.release()
                t.thread.join(5)
        self.current = self.main


class Conn:
    """one end of a pipe; the operating system closes it once all processes that hold it have closed it or ended"""

    def __init__(self, pipe, sender):
        self.pipe, self.sender = pipe, sender
        self.holders = {pipe.sim.current}

    def inherit(self, task):
        self.holders.add(task)
        task.on_exit.append(lambda: self.holders.discard(task))

    def _check(self):
        self.pipe.sim.alive()
        if self.pipe.sim.current not in self.holders:
            raise OSError("handle is closed")

    def close(self):
        self.pipe.sim.alive()
        self.holders.discard(self.pipe.sim.current)

    @property
    def closed(self):
        return self.pipe.sim.current not in self.holders

    def send(self, obj):
        self._check()
        data = pickle.dumps(obj)
        self.pipe.sim.point()
        if not self.pipe.recv.holders:
            raise BrokenPipeError()
        self.pipe.data.append(data)

    def _ready(self):
        return bool(self.pipe.data) or not self.pipe.send.holders

    def recv(self):
        self._check()
        if self._ready():
            self.pipe.sim.tick()
        else:
            self.pipe.sim.point(self._ready)
        if not self.pipe.data:
            raise EOFError()
        return pickle.loads(self.pipe.data.pop(0))

    def poll(self, timeout=0.0):
        self._check()
        if timeout is None:
            self.pipe.sim.point(self._ready)
            return True
        self.pipe.sim.point()
        if self._ready():
            return True
        self.pipe.sim.clock += timeout
        return False

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Pipe:
    def __init__(self, sim):
        self.sim = sim
        self.data = []
        self.recv, self.send = Conn(self, False), Conn(self, True)
        sim.pipes = getattr(sim, "pipes", []) + [self]


class Process:
    """a forked process: it gets copies of all ends of pipes that its parent holds"""

    def __init__(self, sim, target=None, args=(), kwargs=None, name=None, daemon=None):
        self.sim = sim
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.task = None
        self.name, self.daemon = name, daemon
        self.gone = False

    def start(self):
        self.task = self.sim.spawn("worker", lambda: self.target(*self.args, **self.kwargs))
        self.sim.procs = getattr(self.sim, "procs", []) + [self]
        for p in getattr(self.sim, "pipes", []):
            for end in (p.recv, p.send):
                if self.sim.current in end.holders:
                    end.inherit(self.task)
        self.sim.on_spawn(self.task)
        self.sim.point(atomic=True)

    def _check(self):
        if self.gone:
            raise ValueError("process object is closed")

    def is_alive(self):
        self._check()
        return self.task is not None and not self.task.finished

    def terminate(self):
        self._check()
        if self.task is not None and not self.task.finished:
            self.task.term = True
        self.sim.point()

    kill = terminate

    def join(self, timeout=None):
        self._check()
        if timeout is None:
            self.sim.point(lambda: self.task.finished)
        else:
            self.sim.point()

    def close(self):
        if self.task is not None and not self.task.finished:
            raise ValueError("Cannot close a process while it is still running")
        self.gone = True

    @property
    def exitcode(self):
        self._check()
        return None if self.task is None or not self.task.finished else (-15 if self.task.dead else 0)

    @property
    def pid(self):
        return 99
