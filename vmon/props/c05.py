"""Whatever S % v accepts, S accepts (and conforms to the reference meaning of S)."""
import d42

from .. import alike, common as C, regextable, scale, sched, spec as sp, values
from . import c04

CASES = {"quick": 60000, "thorough": 1500000}
EVALUATIONS = "implications_checked"
MIN = {"substituted": 12000, "implications_checked": 60000, "third_values": 200000}
RULE = ("one evaluation = one value accepted by S % v (generated from it, the substituted value, "
        "completions with boundary values at unspecified positions, perturbations of all those) "
        "for which S itself, by validate and by the reference model, must accept; "
        "distinct_nontrivial counts distinct (schema text, substituted value, accepted value)")


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.1), max_width=5, fixed=rng.pick([0.1, 0.35]))
    s = c04.directed_list_any(m, rng) if rng.chance(0.05) else \
        g.rich(rng.pick([1, 2, 3, 4])) if rng.chance(.75) else g.gen(rng.pick([0, 1]))
    n = sp.norm(s)
    if not sp.sat(n):
        return
    v, kind = c04.pick_value(n, rng)
    if rng.chance(0.3):
        v = C.partial(v, rng, 0.6)
    if C.is_plain(v):
        observe(m, rng, s, n, m.build(s, C.env()), v)


def observe(m, rng, s, n, b, v):
    out = m.attempt("substitute", d42.substitute, b, v)
    if not out.ok:
        m.count("refused")
        return
    r = out.value
    m.count("substituted")
    m.sample("%s %% %s" % (sp.describe(s), sp.vrepr(v)))
    w = dict(schema=sp.describe(s), substituted=sp.vrepr(v), result=C.d42_repr(r))
    third = [v]
    for schedule in (sched.Schedule("min"), sched.Schedule("max"), sched.Schedule("ext", rng)):
        third.append(C.fake(m, r, schedule, **w))
    for _ in range(3):
        u = C.complete(n, v, rng)
        if u is not sp.MISSING:
            third.append(u)
    base = list(third)
    for u in base:
        third += [values.perturb(u, rng)[1] for _ in range(2)]
        third += C.drop_each_key(u, 3)
        third += C.rename_keys(u, rng, 2)
        third += grow(u, rng)
        pos = sp.sub_positions(n, u)
        for _ in range(3):
            path, s2, _x = rng.pick(pos)
            bs = values.boundary(s2, rng)
            if bs:
                third.append(sp.set_at(u, path, rng.pick(bs)))
    third += C.probe_values(n, rng, 3)
    for x in third:
        m.count("third_values")
        if not C.verdict(m, r, x, **w):
            continue
        m.count("implications_checked")
        m.distinct(sp.describe(s), sp.vrepr(v), sp.vrepr(x))
        if not C.verdict(m, b, x, **w):
            m.fail("the result accepts a value that the original rejects", accepted=x, **w)
        if not sp.conforms(n, x):
            m.fail("the result accepts a value that does not conform to the original", accepted=x,
                   **w)


def grow(u, rng):
    """Extra keys / extra elements at one position (relaxed markers, open lists)."""
    out = []
    ps = [p for p in values.positions(u) if isinstance(sp.get_at(u, p), (list, dict))]
    for _ in range(2):
        if ps:
            p = rng.pick(ps)
            c = sp.get_at(u, p)
            if isinstance(c, dict):
                out.append(sp.set_at(u, p, {**c, "zz%d" % rng._randbelow(9): None}))
            else:
                e = values.plain_value(rng, 1)
                out.append(sp.set_at(u, p, rng.pick([c + [e], [e] + c, c[:1] + [e] + c[1:]])))
    return out


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, vals in scale.all_of(rng, text=5000, members=300, width=130, deep=8):
        n = sp.norm(s)
        if not sp.sat(n):
            continue
        b = m.build(s, C.env())
        for v in rng.sample(vals, min(3, len(vals))) + vals[:1]:
            if rng.chance(.3):
                v = C.partial(v, rng, .1)
            m.count("scale_substitutions")
            observe(m, rng, s, n, b, v)


def d_regex(m, rng):
    """Texts substituted where a pattern stands, found or not."""
    for b, v, conforming in regextable.cases():
        out = m.attempt("substitute", d42.substitute, b, v)
        if not out.ok:
            m.count("refused")
            continue
        m.count("substituted")
        w = dict(schema=C.d42_repr(b), substituted=sp.vrepr(v), result=C.d42_repr(out.value))
        for x, want in ((v, conforming), (C.fake(m, out.value, sched.Schedule("rand", rng), **w), None)):
            m.count("third_values")
            if C.verdict(m, out.value, x, **w):
                m.count("implications_checked")
                if want is False or not C.verdict(m, b, x, **w):
                    m.fail("the result accepts a value that the original rejects", accepted=x, **w)


def d_alike(m, rng):
    """Declarations that look alike, each with values of all of them."""
    for family, s in alike.families(m, rng, 40):
        n, b = sp.norm(s), m.build(s, C.env())
        for x in [s] + rng.sample(family, min(3, len(family))):
            v = sp.sample(sp.norm(x), rng)
            if C.is_plain(v):
                observe(m, rng, s, n, b, v)


DIRECTED = [d_regex] + [d_scale] * 12 + [d_alike] * 6
