"""Harness random numbers, isolated from the RNG scheduler.

`HRandom` pins the original primitives of `random.Random`, so that the scheduler can replace
them on `random.Random` itself without disturbing the harness.
"""
import random
import _random

__all__ = ("HRandom",)


class HRandom(random.Random):
    _randbelow = random.Random._randbelow
    random = _random.Random.random
    getrandbits = _random.Random.getrandbits

    def pick(self, seq):
        return seq[self._randbelow(len(seq))]

    def chance(self, p):
        return self.random() < p

    def weighted(self, table):
        """table: list of (weight, item)"""
        total = sum(w for w, _ in table)
        x = self.random() * total
        for w, item in table:
            x -= w
            if x < 0:
                return item
        return table[-1][1]
