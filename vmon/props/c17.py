"""Seeded generation is reproducible."""
import gc
import json
import os
import subprocess
import sys

import d42
from d42.generation import Random, generate

from .. import common as C, repro, spec as sp, values
from ..hrandom import HRandom
from .c16 import Held as Forward, HeldProps

CASES = {"quick": 18000, "thorough": 500000}
EVALUATIONS = "traces_compared"
MIN = {"traces_compared": 30000, "values_compared": 150000, "interpreters": 40,
       "traces_across_interpreters": 9000, "distinct_traces": 4000}
RULE = ("one evaluation = one trace of values drawn after set_seed(k) for a sequence of schemas, "
        "compared exactly with the trace obtained by another execution of the same sequence: "
        "after unrelated work in the same process, with independently rebuilt schemas, through "
        "another Random instance, and in fresh interpreters with different PYTHONHASHSEED, "
        "locale, time zone, working directory and history; distinct_nontrivial counts distinct "
        "(seed, schemas) whose trace consumed randomness")
ASSUMPTIONS = ["the order of keys inside a generated dict is not compared",
               "one thread draws at a time"]

BATCH = 250


def noise(m, rng, built):
    """Work that must not influence a later seeded run."""
    for _ in range(rng.pick([1, 2, 4])):
        r = rng._randbelow(7)
        s, b = rng.pick(built)
        if r == 0:
            m.attempt("fake", d42.fake, b)
        elif r == 1:
            m.attempt("validate", d42.validate, b, values.plain_value(rng, 2))
            m.attempt("repr", repr, b)
        elif r == 2:
            m.attempt("substitute", d42.substitute, b, values.plain_value(rng, 1))
        elif r == 3:
            d42.fake(d42.schema.list(d42.schema.any(d42.schema.uuid4, d42.schema.date,
                                                    d42.schema.datetime)))
        elif r == 4:
            Random().set_seed(rng._randbelow(1000))
            d42.fake(d42.schema.str.regex(r"[^a-f]{3}\w+"))
        elif r == 5:
            gc.collect(0)
        else:
            g = C.gen(rng)
            m.attempt("fake", d42.fake, sp.build(g.gen(2), C.env()))


def case(m, rng, idx):
    if m.tier == "thorough" and idx % 400 == 7:
        return across(1000 + idx)(m, rng)
    k, items = repro.sequence("%s:%s" % (m.seed, idx), 0)
    env = C.env()
    built = repro.build_all(items, env)
    if not built:
        m.count("nothing_built")
        return
    if rng.chance(.2):
        built = [(s, Forward(HeldProps({"target": b})) if rng.chance(.5) else b) for s, b in built]
    if rng.chance(.2):
        out = []
        for s, b in built:
            n = sp.norm(s)
            if not s.has("pattern") and sp.sat(n) and rng.chance(.6):
                o = m.attempt("substitute", d42.substitute, b, C.partial(sp.sample(n, rng), rng))
                b = o.value if o.ok else b
            out.append((s, b))
        built = out
    w = dict(seed=repr(k), schemas=" ; ".join(sp.describe(s) for s, _ in built)[:1500])
    m.sample(w["schemas"])

    def run(seq, setter=None, via=None):
        if via is None:
            return m.call("seeded fake", repro.trace, k, seq, setter, witness=w)
        setter.set_seed(k)
        return [m.call("seeded fake", via, b, witness=w) for _, b in seq]

    first = run(built)
    text = [repro.encode(x) for x in first]
    if m.distinct(w["seed"], w["schemas"]):
        m.count("distinct_traces")
    owner = Random()
    ways = [("again", lambda: run(built)),
            ("after other work", lambda: (noise(m, rng, built), run(built))[1]),
            ("through another Random instance", lambda: run(built, owner)),
            ("through ~schema", lambda: run(built, Random(), lambda b: ~b)),
            ("through generate()", lambda: run(built, Random(), generate))]
    for name, fn in ways:
        got = [repro.encode(x) for x in fn()]
        compare(m, text, got, name, w)
    # equal seeds of equal value, and a longer sequence with the same prefix
    more = run(built + built)
    compare(m, text, [repro.encode(x) for x in more[:len(text)]], "as the prefix of a longer run", w)
    rebuilt = repro.build_all(items, env)
    if [b == c for (_, b), (_, c) in zip(built, rebuilt)] == [True] * len(rebuilt) and \
            len(built) == len(rebuilt) and all(type(b) is type(c) for (_, b), (_, c)
                                               in zip(built, rebuilt)):
        m.count("rebuilt_traces")
        compare(m, text, [repro.encode(x) for x in run(rebuilt)], "with rebuilt schemas", w)


def compare(m, text, got, how, w):
    m.count("traces_compared")
    m.count("values_compared", len(text))
    if text != got:
        i = [x != y for x, y in zip(text, got)].index(True) if len(text) == len(got) else -1
        m.fail("the same seed and schemas give other values (%s)" % how, draw=str(i),
               first=text[i][:700], again=got[i][:700] if len(got) > i else "(missing)", **w)


ENVS = [("0", "plain", {}), ("1", "reverse", {"TZ": "Asia/Tokyo", "LC_ALL": "C"}),
        ("77", "noise", {"PYTHONUTF8": "1"}), ("random", "plain", {"PYTHONDONTWRITEBYTECODE": "1"}),
        ("4294967295", "noise", {"PYTHONOPTIMIZE": "1"}), ("3", "reverse", {"PYTHONMALLOC": "malloc"})]


def child(m, name, first, hashseed, mode, extra):
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(extra)
    env["PYTHONPATH"] = "%s:%s" % (m.repo, verif)
    env["PYTHONHASHSEED"] = hashseed
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([sys.executable, "-m", "vmon.repro", name, str(first), str(BATCH), mode],
                       env=env, cwd="/" if mode == "noise" else verif, capture_output=True,
                       timeout=400)
    m.count("interpreters")
    if p.returncode != 0:
        raise RuntimeError("child interpreter failed: " + p.stderr.decode("utf8", "replace")[-1500:])
    return [json.loads(x) for x in p.stdout.decode().splitlines()]


def across(number):
    def run(m, rng):
        """One batch of sequences in several fresh interpreters."""
        name = "x:%s:%d" % (m.seed, number)
        envs = list(ENVS)
        HRandom(name).shuffle(envs)
        base = None
        for hashseed, mode, extra in envs[:6 if m.tier == "thorough" else 4]:
            lines = child(m, name, 0, hashseed, mode, extra)
            if base is None:
                base = lines
                continue
            for a, b in zip(base, lines, strict=True):
                w = dict(seed=a["k"], schemas=" ; ".join(a["specs"])[:1500],
                         interpreters="%s / PYTHONHASHSEED=%s %s %s"
                         % (envs[0], hashseed, mode, extra))
                if a["specs"] != b["specs"] or a["k"] != b["k"]:
                    raise RuntimeError("the harness generated different schemas: %r" % (w,))
                m.count("traces_across_interpreters")
                if ("error" in a) != ("error" in b):
                    m.fail("generation raises in one interpreter only",
                           error=str(a.get("error") or b.get("error")), **w)
                if "error" in a:
                    m.count("raised")
                    continue
                compare(m, a["trace"], b["trace"], "in another interpreter", w)
    return run


DIRECTED = [across(i) for i in range(16)]
