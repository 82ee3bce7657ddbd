"""Substitution pins the given value: events are what S % v accepts and generates."""
import d42

from .. import alike, common as C, regextable, scale, sched, spec as sp, values
from ..spec import Spec

CASES = {"quick": 75000, "thorough": 1500000}
EVALUATIONS = "observations"
MIN = {"substituted": 12000, "generated": 60000, "accepted_checked": 30000, "partial": 2000,
       "completions_checked": 3000}
RULE = ("one evaluation = one value accepted or generated by S % v under a scheduled RNG, checked "
        "with the `carries` relation (scalars equal within the declared float tolerance, lists "
        "element-wise, dicts on every given key), or one conforming value that the result must "
        "accept; distinct_nontrivial counts distinct (schema text, substituted value text) pairs "
        "for which substitution succeeded")
ASSUMPTIONS = ["two floats are equal when they differ by no more than one unit of a precision "
               "declared anywhere in the schema"]


def pick_value(n, rng):
    """A plain value to substitute: conforming, partial, or perturbed."""
    v = sp.sample(n, rng)
    kind = "conforming"
    r = rng.random()
    if r < 0.45:
        v2 = C.partial(v, rng, rng.pick([0.2, 0.5, 0.8]))
        if not values.same(v, v2):
            v, kind = v2, "partial"
    elif r < 0.6:
        v, kind = values.perturb(v, rng)[1], "perturbed"
    return v, kind


def directed_list_any(m, rng):
    """An any(...) of dicts inside list windows, with decoys in front of the right place."""
    g = C.gen(rng, unsat=False)
    d1 = g.g_dict(1, untyped=False)
    d2 = g.g_dict(1, untyped=False)
    el = rng.pick([d1, sp.Spec("any", alts=[d1, d2])])
    s = sp.Spec("list", elems=[el] * rng.pick([1, 1, 2]) + ([d2] if rng.chance(.4) else []),
                head=True, tail=True)
    return s


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.1), max_width=5, fixed=rng.pick([0.1, 0.35]))
    s = directed_list_any(m, rng) if rng.chance(0.08) else \
        g.rich(rng.pick([1, 2, 3, 4])) if rng.chance(.85) else g.gen(1)
    n = sp.norm(s)
    if not sp.sat(n):
        return
    v, kind = pick_value(n, rng)
    if C.is_plain(v):
        observe(m, rng, s, n, m.build(s, C.env()), v, kind)


def observe(m, rng, s, n, b, v, kind):
    m.count("attempted")
    before = values.snapshot(v)
    out = m.attempt("substitute", d42.substitute, b, v) if rng.chance(.5) else \
        m.attempt("substitute", lambda: b % v)
    if values.snapshot(v) != before:
        m.fail("substitution changed the value passed in", schema=sp.describe(s), value=v)
    if not out.ok:
        m.count("refused")
        if kind == "conforming":
            m.count("refused_conforming")
        return
    r = out.value
    m.count("substituted")
    m.count(kind)
    m.sample("%s %% %s" % (sp.describe(s), sp.vrepr(v)))
    m.distinct(sp.describe(s), sp.vrepr(v))
    ps = C.precisions(n)
    tol = 10.0 ** -min(ps) if ps else None
    w = dict(schema=sp.describe(s), substituted=sp.vrepr(v), result=C.d42_repr(r))

    # a conforming value is accepted by the result
    if sp.conforms(n, v):
        m.count("observations")
        if not C.verdict(m, r, v, **w):
            m.fail("the result rejects the substituted value although it conforms to the original",
                   **w)
    # generated values carry the data
    fakes = []
    for schedule in sched.schedules(rng, 1, 4 if m.tier == "quick" else 20):
        x = C.fake(m, r, schedule, **w)
        m.count("generated")
        m.count("observations")
        if not C.carries(v, x, tol):
            m.fail("a generated value does not carry the substituted data", generated=x,
                   rng=schedule.mode, **w)
        fakes.append(x)
    # so do accepted values
    third = []
    for base in (v, fakes[0], fakes[-1]):
        third += [values.perturb(base, rng)[1] for _ in range(3)] + C.drop_each_key(base, 3)
    third += C.probe_values(n, rng, 3)
    for _ in range(2):
        u = C.complete(n, v, rng)
        if u is not sp.MISSING:
            third.append(u)
            third.append(values.perturb(u, rng)[1])
            third += C.drop_each_key(u, 2)
            third += C.rename_keys(u, rng, 2)
            if pure(n, v) and sp.conforms(n, u) and C.carries(v, u, None):
                # keys not given keep their schema and optionality, so this is still acceptable
                m.count("completions_checked")
                m.count("observations")
                if not C.verdict(m, r, u, **w):
                    m.fail("the result rejects a conforming value that carries the data: keys that "
                           "were not given did not keep their schema or optionality",
                           rejected=u, **w)
    for x in third:
        if C.verdict(m, r, x, **w):
            m.count("accepted_checked")
            m.count("observations")
            if not C.carries(v, x, tol):
                m.fail("the result accepts a value that does not carry the substituted data",
                       accepted=x, **w)


def pure(n, v):
    """No `any`, no untyped container and no contains-list on the way of v: the result is
    determined key by key."""
    for path, s, x in sp.sub_positions(n, v):
        if s.kind == "any" and (not s.has("alts") or isinstance(x, (dict, list))):
            return False
        if s.kind == "list" and s.get("head") and s.get("tail"):
            return False
        if s.kind == "dict" and not s.get("keys"):
            return False
    return True


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, vals in scale.all_of(rng, text=5000, members=300, width=130, deep=8):
        n = sp.norm(s)
        if not sp.sat(n):
            continue
        b = m.build(s, C.env())
        for v in rng.sample(vals, min(3, len(vals))) + vals[:1]:
            if rng.chance(.3):
                v = C.partial(v, rng, .1)
            m.count("scale_substitutions")
            observe(m, rng, s, n, b, v, "conforming" if sp.conforms(n, v) else "other")


def d_regex(m, rng):
    """Texts that a pattern finds, substituted where the pattern stands."""
    for b, v, conforming in regextable.cases():
        out = m.attempt("substitute", d42.substitute, b, v)
        m.count("attempted")
        if not out.ok:
            m.count("refused")
            continue
        r = out.value
        w = dict(schema=C.d42_repr(b), substituted=sp.vrepr(v), result=C.d42_repr(r))
        m.count("substituted")
        m.count("observations", 2)
        if conforming and not C.verdict(m, r, v, **w):
            m.fail("the result rejects the substituted value although it conforms to the original", **w)
        x = C.fake(m, r, sched.Schedule("rand", rng), **w)
        if not C.carries(v, x, None):
            m.fail("a generated value does not carry the substituted data", generated=x, **w)


def d_alike(m, rng):
    """Declarations that look alike, each with values of all of them."""
    for family, s in alike.families(m, rng, 40):
        n, b = sp.norm(s), m.build(s, C.env())
        for x in [s] + rng.sample(family, min(3, len(family))):
            v = sp.sample(sp.norm(x), rng)
            if C.is_plain(v):
                observe(m, rng, s, n, b, v, "alike")
                b2 = d42.schema.any(d42.schema.list, d42.schema.str, d42.schema.int, d42.schema.bytes)
                if type(v) in (list, str, int, bytes):
                    s2 = Spec("any", alts=[Spec("list"), Spec("str"), Spec("int"), Spec("bytes")])
                    observe(m, rng, s2, sp.norm(s2), b2, v, "alike")


DIRECTED = [d_regex] + [d_scale] * 20 + [d_alike] * 6
