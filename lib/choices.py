"""Controlled scheduler for the random number source: explores the tree of all random outcomes (stateless model checking)."""
from __future__ import annotations

import random


class Cut(BaseException):
    """raised when a run asks for more choices than the bound permits"""


class Scheduler:
    def __init__(self, depth: int):
        self.depth = depth
        self.prefix: list[int] = []
        self.trace: list[list[int]] = []  # [chosen, number of options]

    def pick(self, n: int) -> int:
        n = int(n)
        if n <= 1:
            return 0
        pos = len(self.trace)
        if pos >= self.depth:
            raise Cut()
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        c = min(c, n - 1)
        self.trace.append([c, n])
        return c

    def backtrack(self) -> bool:
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.prefix = [x[0] for x in t[:-1]] + [t[-1][0] + 1]
        return True


FLOATS = (0.0, 0.3, 0.7, 0.999999)


class Control:
    """while active, every use of Python's random module asks the scheduler"""

    def __init__(self, sched: Scheduler, floats=(0.25, 0.75)):
        self.s, self.floats = sched, floats

    def __enter__(self):
        s, floats = self.s, self.floats
        self.saved = {}

        def rnd(*_a):
            return floats[s.pick(len(floats))]

        def below(_self, n, *a):
            return s.pick(n)

        def choices(_self, population, weights=None, *, cum_weights=None, k=1):
            pop = list(population)
            ok = list(range(len(pop)))
            if weights is not None:
                ok = [i for i, w in enumerate(weights) if w > 0]
            elif cum_weights is not None:
                ok = [i for i in range(len(pop)) if cum_weights[i] > (cum_weights[i - 1] if i else 0)]
            return [pop[ok[s.pick(len(ok))]] for _ in range(k)]

        def uniform(_self, a, b):
            return a + (b - a) * rnd()

        R = random.Random
        self.cls = {}
        for name, f in (("_randbelow", below), ("random", lambda _s: rnd()), ("choices", choices), ("uniform", uniform)):
            self.cls[name] = R.__dict__.get(name, None)
            setattr(R, name, f)
        self.mod = {}
        inst = random._inst
        for name, f in (("random", rnd), ("choices", lambda *a, **kw: choices(inst, *a, **kw)), ("uniform", lambda a, b: uniform(inst, a, b))):
            self.mod[name] = getattr(random, name)
            setattr(random, name, f)
        # instances whose class got a _randbelow selected in __init_subclass__ are subclasses; they keep their own
        return self

    def __exit__(self, *exc):
        R = random.Random
        for name, f in self.cls.items():
            if f is None:
                delattr(R, name)
            else:
                setattr(R, name, f)
        for name, f in self.mod.items():
            setattr(random, name, f)
        return False


def explore(fn, *, depth=60, max_runs=200000, floats=(0.25, 0.75)):
    """yields (trace, kind, value) for every choice sequence; kind is ok, raise or cut"""
    s = Scheduler(depth)
    runs = 0
    while True:
        s.trace = []
        try:
            with Control(s, floats):
                val = fn()
            kind = "ok"
        except Cut:
            kind, val = "cut", None
        except Exception as e:  # noqa: BLE001
            kind, val = "raise", e
        runs += 1
        yield [tuple(t) for t in s.trace], kind, val
        if not s.backtrack():
            return
        if runs >= max_runs:
            raise RuntimeError(f"choice tree exceeds {max_runs} runs")
