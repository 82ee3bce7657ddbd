"""from_native(value) denotes exactly that value."""
import datetime as dt
import math
import uuid

import d42
from d42.utils import from_native

from .. import alike, common as C, scale, sched, spec as sp, values

CASES = {"quick": 120000, "thorough": 2000000}
EVALUATIONS = "checks"
MIN = {"checks": 300000, "accepted": 30000, "generated": 60000, "rejected": 150000,
       "refused": 6000}
RULE = ("one evaluation = one observation about from_native(v): v (or an equal copy) is accepted, "
        "a value generated under an RNG schedule equals v exactly (types, order-insensitive keys), "
        "a perturbed value that differs is rejected, or an inconvertible value is refused with "
        "ValueError; perturbations are single steps at every depth (kind, content, length, key "
        "set); distinct_nontrivial counts distinct (value, perturbed value) texts")
ASSUMPTIONS = ["Python's identification of booleans and integers, the relative float tolerance of "
               "1e-9 and equal instants in different time zones are left aside",
               "instances of subclasses of the listed types are not judged"]


def plain(rng, depth):
    if depth <= 0 or rng.chance(.35):
        r = rng.random()
        if r < .25:
            return values.scalar(rng)
        if r < .4:
            return rng.pick([True, False, 0, 1, 0.0, 1.0, -0.0, "", b"", None, [], {}])
        if r < .5:
            return rng.pick([dt.datetime(2020, 1, 1), dt.date(2020, 1, 1),
                             dt.datetime(1999, 12, 31, 23, 59, 59, 999999), values.DATETIMES[5]])
        if r < .6:
            return rng.pick([float("inf"), float("-inf"), float("nan"), 10 ** 400, -10 ** 400,
                             2 ** 53 + 1, float(2 ** 53), 1e308, 5e-324, values.BIG])
        if r < .8:
            return rng.pick(values.STRS)
        return rng.pick([rng._randbelow(10 ** 6), rng.random() * 100, values.uuid4(rng),
                         str(rng._randbelow(99)), -rng._randbelow(99)])
    n = rng.pick([0, 1, 2, 2, 3, 4])
    if rng.chance(.5):
        out = [plain(rng, depth - 1) for _ in range(n)]
        if n >= 2 and rng.chance(.25):
            out[1] = out[0]
        return out
    keys = values.KEYS + ["k%d" % rng._randbelow(30), rng._randbelow(50), values.DATES[0],
                          values.UUIDS[0], 2.5, ("n", None)]
    return {rng.pick(keys): plain(rng, depth - 1) for _ in range(n)}


def key_eq(a, b):
    return a is b or a == b


def surely_different(v, w):
    """w differs from v in kind, content, length, key set or a nested member, even when leaving
    aside bool/int identification, the float tolerance and equal instants."""
    if isinstance(v, (bool, int)) and not isinstance(v, float):
        if isinstance(w, int):
            return v != w
        return True
    if isinstance(v, float):
        if not isinstance(w, float):
            return True
        if v != v or w != w:
            return (v != v) != (w != w)
        if math.isinf(v) or math.isinf(w):
            return v != w
        return not math.isclose(v, w, rel_tol=1.0001e-9, abs_tol=0)
    if isinstance(v, dt.datetime):
        if not isinstance(w, dt.datetime):
            return True
        return v != w
    if isinstance(v, dt.date):
        if isinstance(w, dt.datetime):
            return True
        return not isinstance(w, dt.date) or v != w
    if isinstance(v, list):
        if not isinstance(w, list) or len(v) != len(w):
            return True
        return any(surely_different(x, y) for x, y in zip(v, w))
    if isinstance(v, dict):
        if not isinstance(w, dict) or len(v) != len(w):
            return True
        for k in v:
            if k not in w:
                return True
            if surely_different(v[k], w[k]):
                return True
        return False
    if v is None:
        return w is not None
    if isinstance(v, (str, bytes, uuid.UUID)):
        kind = type(v)
        return not isinstance(w, kind) or v != w
    raise AssertionError(type(v))


def tweak(v, rng):
    """One small step away from v, of the kinds the property names."""
    p = rng.pick(values.positions(v))
    x = sp.get_at(v, p)
    r = rng.random()
    if r < .55:
        y = values.near(x, rng)
    elif r < .7:       # sibling kinds
        y = rng.pick([None, False, True, 0, 1, 0.0, 1.0, "", b"", [], {}, "1", b"1", (), "None",
                      dt.date(2020, 1, 1), dt.datetime(2020, 1, 1), values.UUIDS[1],
                      values.OTHER_UUIDS[0], float("nan")])
        if isinstance(x, dt.date) and not isinstance(x, dt.datetime) and rng.chance(.7):
            y = dt.datetime(x.year, x.month, x.day)
        if isinstance(x, dt.datetime) and rng.chance(.7):
            y = x.date()
        if type(x) is int and rng.chance(.6) and abs(x) < 2 ** 900:
            y = rng.pick([float(x), str(x), x + 1])
        if type(x) is float and math.isfinite(x) and rng.chance(.6):
            y = rng.pick([int(x), str(x), x * (1 + 3e-9), x * (1 - 3e-9), x + 1e-3])
    elif r < .85 and isinstance(x, dict):
        y = dict(x)
        y[rng.pick(["extra", 0, 1, None, "a", ("x",), "zz", "", False])] = \
            rng.pick([None, 0, [], "a"])
    elif isinstance(x, list):
        y = rng.pick([x + [None], x + x, x[:-1], x[1:], [x], x + [x], [None] + x,
                      x[:1] + [0] + x[1:], tuple(x)])
    else:
        y = rng.pick([values.zoo(rng), [x], {"v": x}, (x,)])
    return sp.set_at(v, p, y)


def case(m, rng, idx):
    if rng.chance(.2):
        return refusal(m, rng)
    if rng.chance(.03):
        m.count("large")
        v = values.large_value(rng)
        v = rng.pick([lambda: v, lambda: [v], lambda: {"a": v, "b": plain(rng, 1)}])()
    else:
        v = plain(rng, rng.pick([0, 1, 2, 3, 4]))
    text = sp.vrepr(v, 1000)
    w = dict(value=text)
    m.sample(text)
    s = m.call("from_native", from_native, v, witness=w)
    w["schema"] = C.d42_repr(s)
    twin = values.fresh(v)
    for x in (v, twin, values.deep_equal_copy(v)):
        m.count("checks")
        m.count("accepted")
        if not C.verdict(m, s, x, **w):
            m.fail("from_native(v) rejects v", **w)
    shuffled = reorder(v, rng)
    m.count("checks")
    if not C.verdict(m, s, shuffled, **w):
        m.fail("from_native(v) rejects v with its keys in another order", given=shuffled, **w)
    for schedule in (sched.Schedule("min"), sched.Schedule("max"), sched.Schedule("ext", rng)):
        m.count("checks")
        m.count("generated")
        x = C.fake(m, s, schedule, **w)
        if not C.dict_equal(x, v):
            m.fail("from_native(v) generates something else", generated=x, rng=schedule.mode, **w)
    for i in range(8):
        u = tweak(v, rng)
        if rng.chance(.1):
            u = tweak(u, rng) if isinstance(u, (list, dict)) else u
        if not surely_different(v, u):
            m.count("not_different")
            continue
        m.count("checks")
        m.count("rejected")
        m.distinct(text, sp.vrepr(u, 1000))
        if C.verdict(m, s, u, **w):
            m.fail("from_native(v) accepts another value", other=u, **w)


def reorder(v, rng):
    if isinstance(v, dict):
        items = [(k, reorder(x, rng)) for k, x in v.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [reorder(x, rng) for x in v]
    return v


def other_kind(v):
    """Not of the listed kinds (and not an instance of a subclass of one)."""
    if isinstance(v, uuid.UUID):
        return v.version != 4
    return not (v is None or isinstance(v, (bool, int, float, str, bytes, list, dict, dt.date)))


def refusal(m, rng):
    for _ in range(20):
        z = values.zoo(rng) if rng.chance(.8) else rng.pick(
            [Ellipsis, d42.schema.int, d42.optional, d42.schema, values.OTHER_UUIDS[2],
             values.OTHER_UUIDS[0], values.OTHER_UUIDS[1], values.OTHER_UUIDS[3]])
        if other_kind(z):
            break
    else:
        return
    v = plain(rng, rng.pick([0, 1, 2, 3]))
    p = rng.pick(values.positions(v))
    bad = sp.set_at(v, p, z)
    if rng.chance(.3):
        q = rng.pick(values.positions(v))
        c = sp.get_at(v, q)
        if isinstance(c, list):
            bad = sp.set_at(v, q, rng.pick([c + [z], [z] + c]))
        elif isinstance(c, dict):
            bad = sp.set_at(v, q, {**c, "bad": z})
    m.count("checks")
    m.count("refused")
    m.count("refused:" + type(z).__name__)
    out = m.attempt("from_native", from_native, bad)
    w = dict(value=sp.vrepr(bad, 1000))
    m.distinct("refusal", w["value"])
    if out.ok:
        m.fail("from_native accepted an inconvertible value", schema=C.d42_repr(out.value), **w)
    if not isinstance(out.exc, ValueError):
        m.fail("from_native raised %s instead of ValueError" % type(out.exc).__name__,
               error=sp.vrepr(out.exc), **w)


def d_pairs(m, rng):
    """All ordered pairs of distinct scalars, bare, in a list and in a dict."""
    pool = [None, True, False, 0, 1, 2, -1, 0.0, 1.0, 0.5, "", "a", "1", b"", b"a", b"1", [], {},
            [[]], [{}], {"a": {}}, values.UUIDS[0], values.UUIDS[1], values.OTHER_UUIDS[0],
            dt.datetime(2020, 1, 1), dt.date(2020, 1, 1), dt.datetime(2020, 1, 2),
            dt.date(2020, 1, 2), float("inf"), float("-inf"), float("nan"), 10 ** 400, [None],
            {"a": None}, ["a"], [1], {1: 1}, {"1": 1}, (), ("a",), "None", str(values.UUIDS[0]),
            values.UUIDS[0].hex, values.UUIDS[0].bytes, values.UUIDS[0].int, "2020-01-01",
            dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)]
    wraps = [lambda x: x, lambda x: [x], lambda x: {"k": x}, lambda x: [0, {"k": [x]}],
             lambda x: {"a": 1, "b": {"c": x}}]
    for v in pool:
        if isinstance(v, tuple) or (isinstance(v, uuid.UUID) and v.version != 4):
            continue
        for wrap in wraps:
            s = m.call("from_native", from_native, wrap(v))
            for u in pool:
                m.count("checks")
                got = C.verdict(m, s, wrap(u), of=sp.vrepr(v))
                try:
                    different = surely_different(v, u)
                except TypeError:
                    continue
                if different:
                    m.count("rejected")
                    if got:
                        m.fail("from_native(v) accepts another value", value=wrap(v),
                               other=wrap(u))
                elif v is u and not got:
                    m.fail("from_native(v) rejects v", value=wrap(v))


def d_towers(m, rng):
    """Nested containers around one member, up to 70 deep, and values that differ in it only."""
    for depth in list(range(1, 40)) + rng.sample(scale.DEPTHS, 6):
        for _ in range(3):
            v, others = scale.plain_towers(rng, depth)
            s = m.call("from_native", from_native, v)
            w = dict(value=sp.vrepr(v, 1500), depth=depth)
            m.count("towers")
            m.count("checks", 2)
            if not C.verdict(m, s, values.fresh(v), **w):
                m.fail("from_native(v) rejects v", **w)
            x = C.fake(m, s, sched.Schedule("ext", rng), **w)
            if not C.dict_equal(x, v):
                m.fail("from_native(v) generates something else", generated=x, **w)
            for u in others:
                m.count("checks")
                m.count("rejected")
                if C.verdict(m, s, u, **w):
                    m.fail("from_native(v) accepts another value", other=u, **w)


def d_large(m, rng):
    """Text of up to 100001 letters, containers of up to 3000 members, shared members."""
    for _ in range(40):
        v, others = scale.plain_large(rng)
        s = m.call("from_native", from_native, v)
        w = dict(value=sp.vrepr(v, 300))
        m.count("large")
        m.count("checks", 2)
        for x in (v, values.fresh(v)):
            if not C.verdict(m, s, x, **w):
                m.fail("from_native(v) rejects v", **w)
        x = C.fake(m, s, sched.Schedule("ext", rng), **w)
        if not C.dict_equal(x, v):
            m.fail("from_native(v) generates something else", generated=sp.vrepr(x, 300), **w)
        for u in others:
            m.count("checks")
            m.count("rejected")
            if C.verdict(m, s, u, **w):
                m.fail("from_native(v) accepts another value", other=sp.vrepr(u, 300), **w)


def d_alike(m, rng):
    """Values that look alike (equal hashes, heads, tails, sizes), bare and nested."""
    for family, v in alike.families(m, rng, 120, lambda r: alike.nested(r, alike.plain(r))):
        s = m.call("from_native", from_native, v)
        w = dict(value=sp.vrepr(v, 600))
        m.count("checks", 2)
        if not C.verdict(m, s, values.fresh(v), **w):
            m.fail("from_native(v) rejects v", **w)
        x = C.fake(m, s, sched.Schedule("ext", rng), **w)
        if not C.dict_equal(x, v):
            m.fail("from_native(v) generates something else", generated=sp.vrepr(x, 600), **w)
        for u in family:
            if surely_different(v, u):
                m.count("checks")
                m.count("rejected")
                if C.verdict(m, s, u, **w):
                    m.fail("from_native(v) accepts another value", other=sp.vrepr(u, 600), **w)


DIRECTED = [d_pairs, d_towers, d_towers] + [d_large] * 6 + [d_alike] * 6
