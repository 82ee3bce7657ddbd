"""validate()'s verdict equals the independent reference semantics, on conforming values, one-step
perturbations at every depth, boundary values of every constraint and unrelated values."""
import d42

from .. import alike, common as C, regextable, scale, spec as sp, values
from ..spec import Spec

CASES = {"quick": 100000, "thorough": 2000000}
EVALUATIONS = "verdicts"
MIN = {"verdicts": 200000, "accepted": 40000, "rejected": 40000, "eq_verdicts": 40000,
       "scale_verdicts": 3000}
RULE = ("one evaluation = one (schema, value) pair whose validate() verdict was compared with the "
        "reference model; values are conforming samples, one-step perturbations at any depth, "
        "boundary values injected at the position of their constraint, key drops, unrelated and "
        "hostile values; distinct_nontrivial counts distinct (schema text, value text) pairs where "
        "the root types agree")


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.15), big=rng.chance(0.1), unsat=rng.chance(0.2), max_width=5)
    s = g.gen(rng.pick([0, 1, 2, 3, 3, 4]))
    n = sp.norm(s)
    b = m.build(s, C.env(), shared=rng.chance(.2))
    for k in sp.kinds_of(n):
        m.count("shape:" + k)
    m.sample(sp.describe(s))
    if sp.sat(n):
        vals = C.probe_values(n, rng, 8, zoo=True)
        vals += C.drop_each_key(vals[0], 3) + C.rename_keys(vals[0], rng, 2)
        if rng.chance(0.3):
            vals += values.boundary(n, rng)[:8]
    else:
        m.count("unsatisfiable_schemas")
        vals = values.boundary(n, rng)[:8] + [values.plain_value(rng, 2) for _ in range(4)]
    for v in vals:
        want = sp.conforms(n, v)
        got = C.verdict(m, b, v, spec=sp.describe(s))
        m.count("verdicts")
        m.count("accepted" if got else "rejected")
        if want != got:
            m.fail("validate %s a value that %s" %
                   (("accepts", "does not conform") if got else ("rejects", "conforms")),
                   schema=sp.describe(s), value=v, value_type=type(v).__name__)
        if rng.chance(0.3):
            m.count("eq_verdicts")
            e = m.call("schema == value", lambda: b == v, witness={"schema": sp.describe(s)})
            if e is not want:
                m.fail("schema == value is %r" % (e,), schema=sp.describe(s), value=v)
        t = n.kind
        if t == "any" or isinstance(v, sp.PY_TYPES.get(t, object)):
            m.distinct(sp.describe(s), sp.vrepr(v))


def d_scale(m, rng):
    """Strings, lists, dicts, unions and nests of sizes up to 100001, one odd spot anywhere."""
    for spec, vals in scale.all_of(rng):
        n = sp.norm(spec)
        text = sp.describe(spec)[:300]
        b = m.build(spec, C.env())
        for v in vals:
            want = sp.conforms(n, v)
            m.count("verdicts")
            m.count("scale_verdicts")
            m.count("accepted" if want else "rejected")
            if C.verdict(m, b, v, spec=text) != want:
                m.fail("validate %s a value that %s" %
                       (("rejects", "conforms") if want else ("accepts", "does not conform")),
                       schema=text, value=v, value_type=type(v).__name__)
        m.distinct("scale", text, len(vals))


def d_alike(m, rng):
    """Declarations that look alike (equal hashes, heads, tails, sizes), and each other's values."""
    def both(r):
        return alike.specs(r) if r.chance(.7) else [Spec("str", pattern=p) for p in alike.patterns(r)]
    known = {}
    for family, s in alike.families(m, rng, 120, both):
        key = id(family)
        if key not in known:
            known.clear()
            vals = []
            for x in family:
                n = sp.norm(x)
                v = sp.sample(n, rng)
                vals += [v, values.perturb(v, rng)[1]]
            known[key] = vals, family
        n, b = sp.norm(s), m.build(s, C.env())
        for v in known[key][0]:
            want = sp.conforms(n, v)
            m.count("verdicts")
            m.count("accepted" if want else "rejected")
            if C.verdict(m, b, v, spec=sp.describe(s)) != want:
                m.fail("validate %s a value that %s" %
                       (("rejects", "conforms") if want else ("accepts", "does not conform")),
                       schema=sp.describe(s), value=v, value_type=type(v).__name__)


def d_regex(m, rng):
    """What patterns mean, as a table: flags, anchors, classes and letters beyond ASCII."""
    import d42
    S = d42.schema
    for p, yes, no in regextable.REGEXES:
        b = S.str.regex(p)
        for v, want in [(x, True) for x in yes] + [(x, False) for x in no]:
            for c, x in ((b, v), (S.list([b]), [v]), (S.dict({"k": b, ...: ...}), {"k": v, "z": 1}),
                         (S.any(S.int, b), v), (S.alias("P", b), v), (S.list(b), ["%s" % v])):
                m.count("regex_table")
                m.count("verdicts")
                m.count("accepted" if want else "rejected")
                if C.verdict(m, c, x, spec=p) != want:
                    m.fail("validate %s a text in which the pattern is %sfound" %
                           ("rejects" if want else "accepts", "" if want else "not "),
                           schema=C.d42_repr(c), value=x)


DIRECTED = [d_regex] + [d_scale] * 24 + [d_alike] * 8
