"""RNG scheduler: decides the outcome of every draw that goes through the `random` module.

The library under test draws through `random.randint/choice/uniform/...`; all of them end in
`random.Random._randbelow(n)` or `random.Random.random()`.  Both are replaced at class level by
functions that ask the active schedule for the outcome.  Harness generators (`HRandom`) pin the
original primitives and are not affected.
"""
import random
from contextlib import contextmanager

from .hrandom import HRandom

ALMOST_ONE = 1.0 - 2.0 ** -53
DRAW_CAP = 20000     # beyond this, outcomes turn random: constant outcomes may starve a retry loop


class Schedule:
    """mode: min | max | alt | altmax | ext | rand | script"""

    def __init__(self, mode, rng=None, script=()):
        self.mode = mode
        self.rng = rng if rng is not None else HRandom(5)
        self.script = tuple(script)
        self.draws = 0
        self.trace = []          # (number of candidate outcomes, chosen candidate)

    def _candidates(self, n):
        if n <= 4:
            return list(range(n))
        return [0, n - 1, 1, n // 2]

    def below(self, n):
        if n <= 0:
            raise ValueError("empty range for a random draw")
        i = self.draws
        self.draws += 1
        m = self.mode if i < DRAW_CAP else "rand"
        if m == "min":
            return 0
        if m == "max":
            return n - 1
        if m == "alt":
            return 0 if i % 2 == 0 else n - 1
        if m == "altmax":
            return n - 1 if i % 2 == 0 else 0
        if m == "rand":
            return self.rng._randbelow(n)
        if m == "ext":
            r = self.rng._randbelow(8)
            if r < 3:
                return 0
            if r < 6:
                return n - 1
            if r == 6 and n > 1:
                return 1
            return self.rng._randbelow(n)
        cand = self._candidates(n)
        k = self.script[i] if i < len(self.script) else 0
        k = min(k, len(cand) - 1)
        self.trace.append((len(cand), k))
        return cand[k]

    def unit(self):
        i = self.draws
        self.draws += 1
        m = self.mode if i < DRAW_CAP else "rand"
        if m == "min":
            return 0.0
        if m == "max":
            return ALMOST_ONE
        if m == "alt":
            return 0.0 if i % 2 == 0 else ALMOST_ONE
        if m == "altmax":
            return ALMOST_ONE if i % 2 == 0 else 0.0
        if m == "rand":
            return self.rng.random()
        if m == "ext":
            r = self.rng._randbelow(8)
            return 0.0 if r < 3 else ALMOST_ONE if r < 6 else self.rng.random()
        cand = [0.0, ALMOST_ONE, 0.5, 2.0 ** -53]
        k = self.script[i] if i < len(self.script) else 0
        k = min(k, 3)
        self.trace.append((4, k))
        return cand[k]

    def next_script(self):
        """The next script in depth-first order, or None when the tree is exhausted."""
        t = list(self.trace)
        while t:
            n, k = t.pop()
            if k + 1 < n:
                return [x for _, x in t] + [k + 1]
        return None


@contextmanager
def scheduled(schedule):
    R = random.Random
    saved = (R._randbelow, random.random, R.__dict__.get("random"))
    R._randbelow = lambda self, n: schedule.below(n)
    R.random = lambda self: schedule.unit()
    random.random = schedule.unit
    try:
        yield schedule
    finally:
        R._randbelow, random.random = saved[0], saved[1]
        if saved[2] is None:
            del R.random
        else:
            R.random = saved[2]


def schedules(rng, n_random=2, dfs=0):
    """Yield fresh schedules; for the DFS part, the caller must finish using one before next()."""
    for m in ("min", "max", "alt", "altmax"):
        yield Schedule(m)
    for _ in range(n_random):
        yield Schedule("ext", rng)
        yield Schedule("rand", rng)
    script = []
    for _ in range(dfs):
        s = Schedule("script", script=script)
        yield s
        script = s.next_script()
        if script is None:
            return
