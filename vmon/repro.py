"""Traces of seeded generation, computed in this interpreter.

`python -m vmon.repro NAME FIRST COUNT` prints one JSON line per sequence, so that a monitor can
compare traces from interpreters with different hash seeds and histories.
"""
import json
import sys

import d42
from d42.generation import Random

from . import spec as sp, specgen, values
from .hrandom import HRandom

SEEDS = [0, 1, 42, -1, 2 ** 64, 10 ** 40, "seed", "", b"seed", b"", 0.5, -2.75, 1e300, True,
         bytearray(b"k"), "é中", 123456789]


def sequence(name, i):
    """-> (seed k, [(spec, repeat)]) - a function of (name, i) only, not of the hash seed."""
    rng = HRandom("%s/%s" % (name, i))
    g = specgen.Gen(rng, nondet=False, fixed=.15, max_width=rng.pick([3, 6]))
    out = []
    for _ in range(rng.pick([1, 2, 3, 5])):
        r = rng.random()
        if r < .25:
            from . import regexgen
            text, node = regexgen.gen_pattern(rng, rng.pick([1, 2, 3]))
            s = sp.Spec("str", pattern=text, node=node)
        elif r < .35:
            s = sp.Spec("str", pattern=rng.pick(CLASSES))
        elif r < .5:
            s = sp.Spec("any", alts=[g.gen(rng.pick([0, 0, 1])) for _ in range(rng.pick([2, 5, 9]))])
        else:
            s = g.gen(rng.pick([0, 1, 2, 3, 4]))
        out.append((s, rng.pick([1, 1, 2, 3])))
    return rng.pick(SEEDS) if rng.chance(.5) else rng._randbelow(10 ** 9), out


CLASSES = [r"[^a]", r"[^abc]{1,9}", r"[^\d]{5}", r"[^\w]{8}", r"[^a-z\d]{6}", r"[^A-Z]+", r"[a-z\d_]+",
           r"\w{10}", r"\d+", r".*", r"(a|b|c|d){10}", r"[^ -~]", r"[\w]{12}", r"[^x]*?", r"[abcdef]{9}",
           r"(?:[^a]|[^b]){7}", r"(?P<n>[^n]{4})", "[^é]{5}", "[éèà]{5}",
           r"[^\w]{3}", r"[^\w!-*]{6}", r"[^ -wz-~]{9}", r"[^!-~]{2}", r"[^ -~]{2}", r"[^ -~\w]",
           r"[^\x00-\xa9\w]", r"[^\d\w_]{5}", r"[^!-}]{7}", r"[^ \t\d]{8}", r"[^ -Z\^-~]{9}",
           r"[^a-zA-Z0-9!-.:-~]{9}", r"[^B-~ -?]{12}", r"[^!-y]{10}"]
CLASSES += [r"[^%s]{9}" % "".join("\\x%02x" % i for i in range(32, 127) if i % 13 not in keep)
            for keep in ((0,), (1, 5), (2, 3, 4), (6,), (7, 12))]
CLASSES += [r"[^\x00-\x%02x\x%02x-\xff]{10}" % (i, i + k) for i in (33, 60, 90, 110)
            for k in (3, 4, 5, 6, 8, 9)]


def build_all(items, env):
    out = []
    for s, n in items:
        try:
            b = sp.build(s, env)
        except Exception:
            continue
        out += [(s, b)] * n
    return out


def trace(k, built, setter=None):
    """The sequence of values after set_seed(k)."""
    (setter or Random()).set_seed(k)
    return [d42.fake(b) for _, b in built]


def encode(v):
    """An exact text of a value that does not depend on the order of dict keys."""
    if type(v) is dict:
        return "{%s}" % ", ".join(sorted("%s: %s" % (encode(a), encode(b)) for a, b in v.items()))
    if type(v) is list:
        return "[%s]" % ", ".join(map(encode, v))
    if type(v) is frozenset:
        return "frozenset(%s)" % sorted(map(encode, v))
    if type(v) is int and abs(v) > 10 ** 100:
        return hex(v)
    return "%s:%r" % (type(v).__name__, v)


def line(name, i, env):
    k, items = sequence(name, i)
    built = build_all(items, env)
    out = {"i": i, "k": repr(k), "specs": [sp.describe(s) for s, _ in built]}
    try:
        out["trace"] = [encode(v) for v in trace(k, built)]
    except Exception as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    return out


def main():
    name, first, count, mode = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    env = sp.Env()
    order = list(range(first, first + count))
    if mode == "reverse":          # another history before each sequence
        order.reverse()
    if mode == "noise":
        junk = [object() for _ in range(1000)]
        for i in range(50):
            line("noise:" + str(len(junk)), i, env)
        d42.fake(d42.schema.uuid4), d42.fake(d42.schema.datetime)
        d42.validate(d42.schema.dict({"a": d42.schema.str}), values.zoo(HRandom(1)))
    lines = {i: line(name, i, env) for i in order}
    for i in sorted(lines):
        sys.stdout.write(json.dumps(lines[i]) + "\n")


if __name__ == "__main__":
    main()
