"""substitute returns a usable schema or raises SubstitutionError; it is idempotent."""
import d42
from d42.declaration import Schema
from d42.substitution.errors import SubstitutionError

from .. import alike, common as C, regextable, scale, sched, spec as sp, values
from . import c04
from .c01 import _known_any

CASES = {"quick": 100000, "thorough": 2000000}
EVALUATIONS = "substitutions"
MIN = {"substitutions": 40000, "succeeded": 12000, "refused": 12000, "idempotence": 10000,
       "hostile": 10000}
RULE = ("one evaluation = one substitute(S, v) call whose outcome class was checked (schema or "
        "SubstitutionError); on success the result must generate, accept what it generates, and "
        "for plain values substituting again must succeed and give an equal schema; v ranges over "
        "conforming, partial, perturbed, hostile and unconvertible values at any position and "
        "placeholders; distinct_nontrivial counts distinct (schema text, value text)")
ASSUMPTIONS = ["self-referential values and recursion-limit depths are out of scope"]


def hostile(n, rng):
    v = sp.sample(n, rng)
    r = rng.random()
    if r < 0.15:
        return values.zoo(rng)
    if r < 0.55:
        return sp.set_at(v, rng.pick(values.positions(v)), values.zoo(rng))
    # an unconvertible / hostile member next to conforming ones
    ps = [p for p in values.positions(v) if isinstance(sp.get_at(v, p), (list, dict))]
    if not ps:
        return [v, values.zoo(rng)]
    p = rng.pick(ps)
    c = sp.get_at(v, p)
    z = values.zoo(rng) if rng.chance(.8) else Ellipsis
    if isinstance(c, dict):
        key = rng.pick(["zz", 99, "a", "b", ("q",), None, Ellipsis, d42.optional("zz")])
        return sp.set_at(v, p, {**c, key: z})
    return sp.set_at(v, p, rng.pick([c + [z], [z] + c, c[:1] + [z] + c[1:]]))


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.1), big=rng.chance(0.1), max_width=5)
    s = c04.directed_list_any(m, rng) if rng.chance(0.08) else \
        g.rich(rng.pick([1, 2, 3, 4])) if rng.chance(.85) else g.gen(1)
    n = sp.norm(s)
    if not sp.sat(n):
        return
    b = m.build(s, C.env())
    m.sample(sp.describe(s))
    for _ in range(2):
        if rng.chance(0.5):
            v = hostile(n, rng)
            m.count("hostile")
        else:
            v, _kind = c04.pick_value(n, rng)
            if rng.chance(0.3):
                v = values.perturb(v, rng)[1]
        one(m, rng, s, n, b, v)


def one(m, rng, s, n, b, v):
    w = dict(schema=sp.describe(s), value=sp.vrepr(v, 1500))
    fn = rng.pick([d42.substitute, lambda x, y: x % y])
    out = m.attempt("substitute", fn, b, v)
    m.count("substitutions")
    m.distinct(sp.describe(s), sp.vrepr(v))
    if not out.ok:
        if not isinstance(out.exc, SubstitutionError):
            from ..monitor import d42_frame
            m.fail("substitute raised %s instead of SubstitutionError" % type(out.exc).__name__,
                   error=sp.vrepr(str(out.exc)), at=str(d42_frame(out.exc, m.repo)), **w)
        m.count("refused")
        str(out.exc)
        return
    r = out.value
    if not isinstance(r, Schema):
        m.fail("substitute returned %r, not a schema" % type(r).__name__, **w)
    m.count("succeeded")
    w["result"] = C.d42_repr(r)
    for schedule in (sched.Schedule("min"), sched.Schedule("max"), sched.Schedule("rand", rng)):
        x = C.fake(m, r, schedule, **w)
        if not C.verdict(m, r, x, **w):
            m.fail("the result rejects what it generates", generated=x, **w)
    if C.is_plain(v):
        m.count("idempotence")
        again = m.call("substitute again", d42.substitute, r, v, witness=w)
        if not (again == r) or again != r:
            m.fail("substituting the same value again gives another schema",
                   again=C.d42_repr(again), **w)


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, vals in scale.all_of(rng, text=20000, members=600, width=130, deep=12):
        n = sp.norm(s)
        if not sp.sat(n):
            continue
        b = m.build(s, C.env())
        for v in rng.sample(vals, min(4, len(vals))) + vals[:1]:
            m.count("scale_substitutions")
            one(m, rng, s, n, b, C.partial(v, rng, .1) if rng.chance(.3) else v)


def put(v, x, rng):
    """`x` at, or next to, a member of `v`."""
    ps = values.positions(v)
    p = rng.pick(ps)
    c = sp.get_at(v, p)
    if isinstance(c, list) and rng.chance(.5):
        i = rng._randbelow(len(c) + 1)
        return sp.set_at(v, p, c[:i] + [x] + c[i:])
    if isinstance(c, dict) and rng.chance(.5):
        return sp.set_at(v, p, {**c, rng.pick([x, "zz"]): x})
    return sp.set_at(v, p, x)


def d_prickly(m, rng):
    """Opaque objects whose own special methods refuse to work (arrays, matchers, proxies)."""
    for _ in range(400):
        g = C.gen(rng, max_width=5)
        s = g.rich(rng.pick([1, 2, 3]))
        n = sp.norm(s)
        if not sp.sat(n):
            continue
        b = m.build(s, C.env())
        for cls in values.PRICKLY:
            m.count("prickly")
            one(m, rng, s, n, b, put(sp.sample(n, rng), cls(), rng))
    S = d42.schema
    for b in (S.list, S.list(S.any), S.list([S.any]), S.list([S.any, ...]), S.list([..., S.any]),
              S.list([..., S.any, ...]), S.list([..., S.any, S.int, ...]), S.list(S.list([S.any])),
              S.dict, S.dict({...: ...}), S.dict({"a": S.any}), S.dict({"a": S.any, ...: ...}),
              S.dict({d42.optional("a"): S.list([S.any])}), S.any, S.any(S.any, S.list([S.any])),
              S.alias("A", S.list([S.any])), S.list.len(1), S.any(S.dict({"a": S.list([S.any])}))):
        for cls in values.PRICKLY:
            for v in (cls(), [cls()], [1, cls()], [cls(), 1], [1, cls(), 1], {"a": cls()}, {"a": [cls()]},
                      {cls(): 1}, {"a": 1, cls(): cls()}, [[cls()]], [..., cls()], [cls(), ...],
                      {"a": {"b": cls()}}, {"a": [1, cls()]}):
                m.count("prickly")
                plain_one(m, b, v)


def plain_one(m, b, v):
    w = dict(schema=C.d42_repr(b), value=sp.vrepr(v, 1500))
    out = m.attempt("substitute", d42.substitute, b, v)
    m.count("substitutions")
    if out.ok:
        if not isinstance(out.value, Schema):
            m.fail("substitute returned %r, not a schema" % type(out.value).__name__, **w)
        m.count("succeeded")
    else:
        if not isinstance(out.exc, SubstitutionError):
            from ..monitor import d42_frame
            m.fail("substitute raised %s instead of SubstitutionError" % type(out.exc).__name__,
                   error=sp.vrepr(str(out.exc)), at=str(d42_frame(out.exc, m.repo)), **w)
        m.count("refused")
        str(out.exc)


def d_many_errors(m, rng):
    """Refusals that carry many errors, about unprintable values among them."""
    S = d42.schema
    odd = [values.BIG, -values.BIG, [values.BIG], {values.BIG: 1}, values.Unprintable(), "\ud800",
           10 ** 4300, float("nan"), values.HashlessStr("x"), (values.BIG,), {"a": [values.BIG]}]
    for k in (2, 3, 5, 9, 10, 11, 16, 17, 33, 64, 101, 257):
        for x in odd:
            bad = [x if rng.chance(.3) else rng.pick(["s%d" % i, None, b"%d" % i, [i], i / 7])
                   for i in range(k)]
            bad[rng._randbelow(k)] = x
            for b, v in ((S.list(S.int.min(5).max(6)), bad), (S.list([S.bool] * k), bad),
                         (S.list([S.bool] * k + [...]), bad), (S.list([..., *[S.bool] * k]), bad),
                         (S.dict({i: S.bool for i in range(k)}), dict(enumerate(bad))),
                         (S.dict({}), {(i, values.BIG): y for i, y in enumerate(bad)}),
                         (S.list, bad), (S.any(S.list(S.bool), S.list([..., S.str, ...])), bad),
                         (S.list([S.list(S.bool), S.dict({"a": S.int})]), [bad, {"a": x}])):
                m.count("many_errors")
                plain_one(m, b, v)


def d_regex(m, rng):
    """Texts substituted where a pattern stands, found or not."""
    for b, v, conforming in regextable.cases():
        for x in (v, [v], {"k": v}):
            plain_one(m, b, x)


def d_alike(m, rng):
    """Declarations that look alike, each with values of all of them."""
    for family, s in alike.families(m, rng, 40):
        n, b = sp.norm(s), m.build(s, C.env())
        for x in [s] + rng.sample(family, min(3, len(family))):
            one(m, rng, s, n, b, sp.sample(sp.norm(x), rng))


DIRECTED = [d_regex] + [d_prickly] * 4 + [d_many_errors] * 2 + [d_scale] * 20 + [d_alike] * 6
KNOWN = {"unsat_member": _known_any}
