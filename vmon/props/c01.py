"""Every outcome of fake(S) under a scheduled RNG is accepted by validate(S, .) and by the model."""
import d42

from .. import alike, common as C, scale, sched, spec as sp

CASES = {"quick": 100000, "thorough": 2000000}
EVALUATIONS = "checked_values"
MIN = {"checked_values": 200000, "substituted": 4000, "draws": 200000}
RULE = ("one evaluation = one value returned by fake() under one RNG schedule (all-min, all-max, "
        "alternating, extreme/random mixtures, depth-first enumeration of draw outcomes), checked "
        "by validate and by the reference model; distinct_nontrivial counts distinct "
        "(schema text, schedule kind) whose schema is constrained or nested")
ASSUMPTIONS = ["unsatisfiable alternatives/members inside a satisfiable schema are a known finding "
               "and are not generated at random"]


def entry(rng):
    from d42.generation import Generator, Random, RegexGenerator, generate
    r = rng._randbelow(4)
    if r == 0:
        return "generate", generate
    if r == 1:
        return "~", lambda b: ~b
    if r == 2:
        rnd = Random()
        g = Generator(rnd, RegexGenerator(rnd, max_repeat=rng.pick([1, 3, 32, 60])))
        return "Generator", lambda b: b.__accept__(g)
    return "fake", d42.fake


def check(m, rng, s, n, b, sub=None):
    dfs = (10 if m.tier == "quick" else 60) if rng.chance(0.3) else 0
    name, fn = entry(rng)
    for schedule in sched.schedules(rng, 2, dfs):
        w = dict(schema=sp.describe(s), substituted=sp.vrepr(sub), built=C.d42_repr(b),
                 rng=schedule.mode, script=list(schedule.script), entry=name)
        with sched.scheduled(schedule):
            x = m.call("fake", fn, b, witness={k: str(v) for k, v in w.items()})
        m.count("draws", schedule.draws)
        m.count("checked_values")
        res = m.call("validate", d42.validate, b, x, witness={k: str(v) for k, v in w.items()})
        if res.has_errors():
            m.fail("generated value is rejected by its own schema", generated=x,
                   errors=[e.format(d42.validation.Formatter()) for e in res.get_errors()], **w)
        if n is not None and not sp.conforms(n, x):
            m.fail("generated value does not conform to the declared meaning", generated=x, **w)
        if len(s.a) or s.kind in ("list", "dict", "any"):
            m.distinct(sp.describe(s), sp.vrepr(sub), schedule.mode)
        m.count("mode:" + schedule.mode)


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.1), big=rng.chance(0.1), max_width=5)
    s = g.gen(rng.pick([0, 1, 2, 3, 4]))
    n = sp.norm(s)
    if not sp.sat(n):
        m.count("unsat")
        return
    b = m.build(s, C.env(), shared=rng.chance(.2))
    for k in sp.kinds_of(n):
        m.count("shape:" + k)
    m.sample(sp.describe(s))
    check(m, rng, s, n, b)
    if rng.chance(0.35):
        v = sp.sample(n, rng)
        if rng.chance(0.5):
            v = C.partial(v, rng)
        out = m.attempt("substitute", d42.substitute, b, v)
        if out.ok:
            m.count("substituted")
            check(m, rng, s, n, out.value, v)


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, _vals in scale.all_of(rng, text=20000, members=1100):
        if s.get("max_len", 0) > 500 or s.get("len", 0) > 5000:
            continue
        n = sp.norm(s)
        if sp.sat(n) and not (s.kind == "str" and s.has("pattern")):
            m.count("scale_schemas")
            check(m, rng, s, n, m.build(s, C.env()))


def d_alike(m, rng):
    """Declarations that look alike (equal hashes, heads, tails, sizes), one after another."""
    for _, s in alike.families(m, rng, 60):
        check(m, rng, s, sp.norm(s), m.build(s, C.env()))


def _failures(S):
    def nest(b, ways):
        for w in ways:
            b = w(b)
        return b
    ways = [lambda b: S.list(b).len(1), lambda b: S.list([b]), lambda b: S.list([b, ...]), lambda b: S.list([..., b]),
            lambda b: S.list([..., b, ...]), lambda b: S.dict({"k": b}), lambda b: S.dict({"k": b, ...: ...}),
            lambda b: S.any(b), lambda b: S.alias("N", b), lambda b: S.list(b).len(2, 3)]
    for leaf in (S.int.min(5).max(1), S.str.regex(r"(?<=a)b"), S.str.regex(r"(a)\1"), S.float.min(2.0).max(1.0)):
        for w in ways:
            yield leaf, w
            yield leaf, lambda b, w=w: w(w(w(b)))
        yield leaf, lambda b: nest(b, ways)
        yield leaf, lambda b: nest(b, ways[::-1])


def d_after_failures(m, rng):
    """Generation that failed half way, many times, then generation from ordinary schemas."""
    for leaf, wrap in _failures(d42.schema):
        b = wrap(leaf)
        for _ in range(rng.pick([1, 3, 40])):
            out = m.attempt("fake", entry(rng)[1], b)
            m.count("failed_generations", not out.ok)
        for _ in range(3):
            s = C.gen(rng, max_width=4).rich(rng.pick([2, 3, 4]))
            n = sp.norm(s)
            if sp.sat(n):
                check(m, rng, s, n, m.build(s, C.env()))


DIRECTED = [d_scale] * 20 + [d_alike] * 8 + [d_after_failures] * 4


def _known_any():
    S = d42.schema
    for b, v in ((S.any(S.int.min(5).max(1), S.int), 3),
                 (S.list(S.int.min(5).max(1)).len(0, 2), [])):
        if d42.validate(b, v).has_errors():
            continue
        for i in range(30):
            try:
                d42.fake(b)
            except Exception:
                return True
    return False


KNOWN = {"unsat_member": _known_any}
