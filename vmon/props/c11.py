"""Constraint refinements can be declared in any order."""
import itertools
import math

import d42
from d42.declaration import DeclarationError

from .. import common as C, ops, spec as sp, values
from ..spec import Spec

E_ = Ellipsis
INF = math.inf
UNIVERSE = {
    "int": ([sp.MISSING, 0, 1, -5, True],
            [("min", (x,)) for x in (-5, 0, 1, 2)] + [("max", (x,)) for x in (-5, 0, 1, 2)]),
    "float": ([sp.MISSING, 0.0, 0.5, -1.25, 1e300],
              [("min", (x,)) for x in (-1.25, 0.0, 0.5, INF)] +
              [("max", (x,)) for x in (-1.25, 0.0, 0.5, -INF)] +
              [("precision", (x,)) for x in (1, 2, 15)]),
    "str": ([sp.MISSING, "", "a", "ab", "aba"],
            [("len", x) for x in ((0,), (2,), (3,), (0, E_), (1, E_), (E_, 2), (E_, 0), (1, 3),
                                  (2, 2), (3, 1))] +
            [("alphabet", (x,)) for x in ("", "a", "ab", "bx")] +
            [("contains", (x,)) for x in ("", "a", "ab", "zz")] +
            [("regex", (x,)) for x in ("", "a", "^[ab]+$", "^$", "z")]),
    "list": ([sp.MISSING, "typed", "exact0", "exact2", "head1", "tail1", "contains2", "open"],
             [("len", x) for x in ((0,), (1,), (2,), (3,), (0, E_), (1, E_), (2, E_), (3, E_),
                                   (E_, 0), (E_, 1), (E_, 2), (E_, 3), (1, 2), (2, 3), (2, 1))]),
}
CHUNKS = 128
CASES = {"quick": CHUNKS + 200000, "thorough": CHUNKS + 600000}
EVALUATIONS = "orders"
MIN = {"orders": 40000, "sets": 9000, "all_rejected": 2000, "all_accepted": 6000,
       "value_first": 5000, "random_sets": 45000}
RULE = ("one evaluation = one order of applying one set of up to 3 distinct refinements (optionally "
        "after fixing a value); per set all permutations run: all must be rejected with "
        "DeclarationError or all accepted with schemas that are == in both directions, give the "
        "same verdicts on probe values and agree with the reference model; a boundary universe per "
        "type (see UNIVERSE) is enumerated completely and further sets have random parameters; "
        "distinct_nontrivial counts distinct (type, value, set)")
ASSUMPTIONS = ["the enumerated universe is finite; random sets extend it"]
_sets = None


def elements(tag):
    i, s = d42.schema.int, d42.schema.str("a")
    return {"typed": i, "exact0": [], "exact2": [i, s], "head1": [E_, i], "tail1": [s, E_],
            "contains2": [E_, i, s, E_], "open": [E_]}[tag]


def element_spec(tag):
    i, s = Spec("int"), Spec("str", value="a")
    return {"typed": dict(elem=i), "exact0": dict(elems=[]), "exact2": dict(elems=[i, s]),
            "head1": dict(elems=[i], head=True), "tail1": dict(elems=[s], tail=True),
            "contains2": dict(elems=[i, s], head=True, tail=True),
            "open": dict(elems=[], head=True)}[tag]


def all_sets():
    global _sets
    if _sets is None:
        _sets = []
        for kind, (vals, refs) in UNIVERSE.items():
            for v in vals:
                for n in (1, 2, 3):
                    for c in itertools.combinations(refs, n):
                        _sets.append((kind, v, c))
    return _sets


PROBES = {
    "int": [-10 ** 30, -6, -5, -4, -1, 0, 1, 2, 3, 10 ** 30, True, 0.5, None, "1"],
    "float": [-1.26, -1.25, -1.2, -1.0, 0.0, -0.0, 0.4, 0.45, 0.5, 0.504, 0.51, 0.549, 0.55, 1.0,
              1e300, INF, -INF, math.nan, 0.5 + 1e-10, 1, None],
    "str": ["", "a", "b", "ab", "ba", "aa", "aab", "aba", "abc", "abab", "z", "zz", "zza", "x", "bx",
            "xb", "a\n", None, 1, b"a"],
    "list": [[], [1], ["a"], [1, "a"], ["a", 1], [1, 1], [1, 2, 3], [1, "a", 1], ["a", "a", 1],
             [0, 1, "a", 9], [None], [None, None], None, (), {}, "a"],
}


def one(m, kind, value, refs, more_probes=()):
    base = getattr(d42.schema, kind)
    s0 = Spec(kind)
    text = "schema." + kind
    if value is not sp.MISSING:
        if kind == "list":
            base = base(elements(value))
            s0 = Spec("list", **element_spec(value))
            text += "(<%s>)" % value
        else:
            base = base(value)
            s0 = Spec(kind, value=value)
            text += "(%s)" % sp.vrepr(value)
        m.count("value_first")
    m.count("sets")
    m.distinct(text, sorted(ops.call_text(*r) for r in refs))
    results = []
    for perm in itertools.permutations(refs):
        m.count("orders")
        b, s = base, s0
        t = text
        err = None
        for name, args in perm:
            t += ops.call_text(name, args)
            out = m.attempt(name, ops.apply_real, b, name, args)
            if not out.ok:
                err = out.exc
                if not isinstance(err, DeclarationError):
                    m.fail("a refinement raised %s" % type(err).__name__, chain=t, error=str(err))
                break
            b = out.value
            s = ops.apply_model(s, name, args, None)
        results.append((t, None if err is not None else b, s))
    ok = [r for r in results if r[1] is not None]
    bad = [r for r in results if r[1] is None]
    if ok and bad:
        m.fail("one order of the same refinements is accepted and another is rejected",
               accepted=ok[0][0], rejected=bad[0][0])
    if bad:
        m.count("all_rejected")
        return
    m.count("all_accepted")
    m.sample(ok[0][0])
    probes = PROBES[kind] + list(more_probes)
    t0, b0, s0 = ok[0]
    v0 = [C.verdict(m, b0, p, chain=t0) for p in probes]
    for p, v in zip(probes, v0):
        m.count("verdicts")
        if sp.conforms(s0, p) != v:
            m.fail("the refinements do not mean what was declared", chain=t0, value=p, verdict=v)
    for t, b, _s in ok[1:]:
        if not (b == b0) or not (b0 == b) or b != b0 or b0 != b:
            m.fail("two orders of the same refinements give unequal schemas", first=t0, second=t)
        v = [C.verdict(m, b, p, chain=t) for p in probes]
        if v != v0:
            i = [x != y for x, y in zip(v, v0)].index(True)
            m.fail("two orders of the same refinements give different verdicts", first=t0,
                   second=t, value=probes[i])


def case(m, rng, idx):
    if idx < CHUNKS:
        for kind, value, refs in all_sets()[idx::CHUNKS]:
            one(m, kind, value, refs)
        return
    kind = rng.weighted([(2, "int"), (3, "float"), (5, "str"), (1, "list")])
    a = ops.Args(rng, lambda: (d42.schema.int, Spec("int")))
    s0 = Spec(kind)
    value = sp.MISSING
    if rng.chance(0.5):
        if kind == "list":
            value = rng.pick(UNIVERSE["list"][0][1:])
            s0 = Spec("list", **element_spec(value))
        else:
            for _ in range(20):
                value = a.value(kind, None)
                if value == value:
                    break
            s0 = Spec(kind, value=value)
    refs, texts = [], set()
    names = [n for n in ops.METHODS[kind] if n != "call"]
    n = 1 + rng._randbelow(3)
    for _ in range(10):
        name = rng.pick(names)
        if len(names) >= 3 and rng.chance(0.5) and any(x[0] == name for x in refs):
            continue
        args = a.draw(kind, name, s0, 0.0)
        if kind == "str" and name in ("alphabet", "contains") and rng.chance(.3):
            args = (rng.pick(values.STRS[:20]),)
        if name == "regex":
            args = (rng.pick(["a", ".*", "^$", "", "[a-z]+", "^a", "b+", "[^a]"]),)
        if kind in ("int", "float") and name in ("min", "max") and rng.chance(.4):
            args = (rng.pick(values.INTS if kind == "int" else values.FLOATS),)
        t = ops.call_text(name, args)
        if t not in texts and len(refs) < n:
            texts.add(t)
            refs.append((name, args))
    m.count("random_sets")
    s = s0
    for r in refs:
        s = ops.apply_model(s, r[0], r[1], None) if s is not None else None
    if s is None:
        return
    probes = []
    try:
        probes = values.boundary(s, rng)[:12]
    except Exception:
        pass
    if value is not sp.MISSING and kind != "list":
        probes.append(value)
    one(m, kind, value, tuple(refs), probes)
