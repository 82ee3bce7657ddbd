"""Validation is total: any Python value yields a result, and failing is reporting."""
import d42
from d42.validation import (Formatter, ValidationException, ValidationResult, Validator,
                            format_result, validate_or_fail)

from .. import common as C, scale, spec as sp, values

CASES = {"quick": 102000, "thorough": 1500000}
EVALUATIONS = "validations"
MIN = {"validations": 100000, "failed": 60000, "passed": 3000, "injected": 50000,
       "hostile_keys": 8000, "twin_keys": 500, "messages": 80000}
RULE = ("one evaluation = one validate(S, v) of a hostile value, alone or injected at a position "
        "(element, value or key) of an otherwise conforming value, observed through validate, "
        "Validator, ==, format_result, every error's message and validate_or_fail; "
        "distinct_nontrivial counts distinct (schema text, value text) pairs")
ASSUMPTIONS = ["no subclass of a built-in whose own special methods raise (opaque objects of that kind "
               "are judged), no self-referential values"]
HOSTILE_KEYS = [lambda: values.BIG, lambda: float("nan"), lambda: float("inf"), lambda: None,
                lambda: (1, (2, values.BIG)), lambda: frozenset({1}), lambda: values.Color.RED,
                lambda: values.Opaque(), lambda: values.NoCopy(), lambda: int, lambda: Ellipsis,
                lambda: values.StrSub("a"), lambda: values.IntSub(1), lambda: b"\xff",
                lambda: "\ud800", lambda: "", lambda: values.Point(1, 2), lambda: True,
                lambda: values.rng_uuid(0), lambda: values.DATES[0], lambda: "x" * 2000,
                lambda: -0.0, lambda: 1 + 2j, lambda: range(2), lambda: "a\nb", lambda: "[0]",
                lambda: values.Same(), lambda: d42.optional("a"), lambda: values.Duck()]


def inject(n, base, rng, m):
    """A hostile value at a position of a conforming one, or alone."""
    r = rng.random()
    if r < 0.12:
        m.count("alone")
        return values.zoo(rng)
    ps = values.positions(base)
    if r < 0.3:
        ds = [p for p in ps if isinstance(sp.get_at(base, p), dict)]
        if ds:
            m.count("hostile_keys")
            p = rng.pick(ds)
            d = dict(sp.get_at(base, p))
            if rng.chance(.12):
                # distinct keys with one printed form: distinct errors with one message
                m.count("twin_keys")
                make = rng.pick([values.Same, lambda: float("nan")])
                for _ in range(rng.pick([2, 2, 3])):
                    d[make()] = rng.pick([None, 1])
                return sp.set_at(base, p, d)
            k = rng.pick(HOSTILE_KEYS)()
            if d and rng.chance(.5):
                old = rng.pick(list(d))
                v = d.pop(old)
                d[k] = v if rng.chance(.7) else values.zoo(rng)
            else:
                d[k] = rng.pick([None, values.zoo(rng)])
            return sp.set_at(base, p, d)
    m.count("injected")
    p = rng.pick(ps)
    v = sp.set_at(base, p, values.zoo(rng))
    if rng.chance(0.25):
        p = rng.pick(values.positions(v))
        c = sp.get_at(v, p)
        if isinstance(c, list):
            i = rng._randbelow(len(c) + 1)
            v = sp.set_at(v, p, c[:i] + [values.zoo(rng)] + c[i:])
        elif rng.chance(.5):
            # a subclass of the container
            if type(c) is dict:
                v = sp.set_at(v, p, values.DictSub(c))
        elif type(c) is list:
            v = sp.set_at(v, p, values.ListSub(c))
    return v


def check(m, rng, b, v, **w):
    w["value"] = sp.vrepr(v, 1200)
    m.count("validations")
    res = m.call("validate", d42.validate, b, v, witness=w)
    if not isinstance(res, ValidationResult):
        m.fail("validate returned %r" % type(res).__name__, **w)
    errors = res.get_errors()
    has = m.call("has_errors", res.has_errors, witness=w)
    if has is not (len(errors) > 0):
        m.fail("has_errors() does not say whether there are errors", errors=len(errors), **w)
    m.count("failed" if has else "passed")
    fmt = Formatter()
    messages = []
    for e in errors:
        t = m.call("format", e.format, fmt, witness=w)
        m.count("messages")
        m.count("error:" + type(e).__name__)
        if not isinstance(t, str) or not t.strip():
            m.fail("an error renders to an empty message", error=type(e).__name__, **w)
        messages.append(t)
        r = rng._randbelow(3)
        if r == 0:
            root = rng.pick(["root", "", "a.b"])
            t2 = m.call("format", e.format, Formatter(root), witness=w)
            if not isinstance(t2, str) or not t2.strip():
                m.fail("an error renders to an empty message", error=type(e).__name__, **w)
    lines = m.call("format_result", format_result, res, witness=w)
    if len(lines) != (1 + len(errors) if errors else 0):
        m.fail("format_result does not give one entry per error", got=len(lines),
               errors=len(errors), **w)
    for x in lines:
        if not isinstance(x, str) or not x.strip():
            m.fail("format_result gives an empty line", **w)
    for t, x in zip(messages, lines[1:]):
        if t not in x:
            m.fail("format_result does not carry the message of an error", message=t, line=x, **w)
    # validate_or_fail
    out = m.attempt("validate_or_fail", validate_or_fail, b, v)
    if out.ok:
        if out.value is not True:
            m.fail("validate_or_fail returned %r" % (out.value,), **w)
        if errors:
            m.fail("validate_or_fail returned True although there are errors", **w)
    else:
        if not isinstance(out.exc, ValidationException):
            m.fail("validate_or_fail raised %s" % type(out.exc).__name__, **w)
        if not errors:
            m.fail("validate_or_fail raised although there are no errors", **w)
        text = str(out.exc)
        at = 0
        for t in messages:
            i = text.find(t, at)
            if i < 0:
                m.fail("the exception does not carry the message of an error, in order",
                       message=t, exception=text[:1500], **w)
            at = i + len(t)
        if not any("\n" in t for t in messages):
            carrying = [ln for ln in text.split("\n") if ln.strip()]
            if len(carrying) != len(messages):
                m.fail("the exception does not carry one line per error", errors=len(messages),
                       exception=text[:1500], **w)
            m.count("line_counts")
    # the other ways in
    if m.call("eq", lambda: b == v, witness=w) is not (not has):
        m.fail("schema == value disagrees with validate", **w)
    if rng.chance(.3):
        again = m.call("Validator", lambda: b.__accept__(Validator(), value=v), witness=w)
        if again.has_errors() is not has:
            m.fail("a fresh Validator disagrees with validate", **w)
    m.distinct(w["schema"], w["value"])


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(.1), big=rng.chance(.2), max_width=5)
    s = g.rich(rng.pick([1, 2, 3, 4])) if rng.chance(.75) else g.gen(0)
    n = sp.norm(s)
    b = m.build(s, C.env())
    w = dict(schema=sp.describe(s))
    m.sample(sp.describe(s))
    base = sp.sample(n, rng)
    check(m, rng, b, base, **w)
    for _ in range(3):
        check(m, rng, b, inject(n, base, rng, m), **w)
    if rng.chance(0.1):
        check(m, rng, b, values.perturb(base, rng)[1], **w)


def d_zoo_scalars(m, rng):
    """Every zoo value against every scalar refinement shape."""
    S = d42.schema
    schemas = [S.none, S.bool, S.bool(True), S.int, S.int(5), S.int.min(1).max(9), S.float,
               S.float(1.5), S.float(1.5).precision(1), S.float.min(0.5).max(2.5),
               S.float.precision(15), S.float(1e308).precision(3), S.float(float("inf")),
               S.str, S.str("abc"), S.str.len(1), S.str.len(1, ...), S.str.len(..., 2),
               S.str.alphabet("ab"), S.str.contains("b"), S.str.regex("^a"), S.bytes, S.bytes(b"x"),
               S.uuid4, S.uuid4(values.UUIDS[0]), S.datetime, S.datetime(values.DATETIMES[0]),
               S.datetime(values.DATETIMES[5]), S.date, S.date(values.DATES[0]), S.any,
               S.any(S.int, S.str), S.list, S.list.len(1), S.list(S.int), S.list([S.int]),
               S.list([S.int, ...]), S.list([..., S.int]), S.list([..., S.int, S.str, ...]),
               S.dict, S.dict({}), S.dict({"a": S.int}), S.dict({"a": S.int, ...: ...}),
               S.dict({d42.optional("a"): S.any(S.int, S.none)}), S.alias("A", S.int)]
    for b in schemas:
        for make in values.ZOO:
            check(m, rng, b, make(), schema=repr(b))
        for make in HOSTILE_KEYS:
            check(m, rng, b, {make(): 1}, schema=repr(b))
            check(m, rng, b, [{make(): 1}], schema=repr(b))


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, vals in scale.all_of(rng, text=20000, members=1100, width=130):
        b = m.build(s, C.env())
        for v in vals:
            m.count("scale_validations")
            check(m, rng, b, v, schema=sp.describe(s)[:500])


def d_bounds(m, rng):
    """Integers that cannot be converted to text, and other unwieldy constants, in the schema."""
    S = d42.schema
    B = values.BIG
    leaves = [S.int(B), S.int(-B), S.int.min(B), S.int.max(-B), S.int.min(-B).max(-B + 1), S.int.min(B).max(B + 1),
              S.int(B).min(1), S.any(S.int(B), S.int(-B)), S.any(S.int.min(B)), S.alias("A", S.int.max(-B)),
              S.str.len(10 ** 18, ...), S.str.len(..., 0), S.str("\ud800" * 300), S.str.contains("\ud800" * 3),
              S.str.alphabet("\x00\ud800\n"), S.str.regex("^\ud800$"), S.bytes(b"\xff" * 4000),
              S.float(1.7976931348623157e308), S.float(5e-324), S.float.min(1e308), S.float(float("nan")),
              S.float.max(float("-inf")), S.list.len(10 ** 18), S.list.len(10 ** 18, ...), S.dict({B: S.int(B)}),
              S.dict({(B,): S.int, d42.optional(-B): S.str}), S.dict({B: S.dict({B: S.int})})]
    for b in leaves:
        for c, wrap in ((b, lambda v: v), (S.dict({"k": b}), lambda v: {"k": v}),
                        (S.list(b), lambda v: [v, v]), (S.list([b, ...]), lambda v: [v, 1]),
                        (S.dict({B: b}), lambda v: {B: v}), (S.any(S.none, b), lambda v: v)):
            for v in (0, 1, -1, 0.5, B, -B, B + 1, True, None, "", "a", "\ud800", b"", [], [1], {}, {B: 1},
                      {B: {B: "x"}}, {B: {-B: 1}}, {-B: 1}, {(B,): B}, float("nan"), float("inf"), values.Opaque()):
                m.count("bounds")
                check(m, rng, c, wrap(v), schema=sp.vrepr(c, 300))


FORMATS = ["%", "%s", "100%", "100%s", "5% d", "%(a)s", "%d%s%r", "{0}", "{x}", "{", "}", "{}", "{{}}",
           "{0.__class__}", "{!r}", "$x", "${x}", "\\1", "\\g<0>", "%%", "{a[0]}", "\x00%s", "%n",
           "{path}", "{value}", "{actual_value}", "%c%c", "*", "[0]['a']", "<b>", "\x1b[0m", "..."]


def d_formats(m, rng):
    """Text that formatting directives might interpret: as values, keys, paths and constraints."""
    S = d42.schema
    for t in FORMATS:
        pairs = [(S.int, t), (S.str(t), t + "x"), (S.str("x"), t), (S.str(t), 1),
                 (S.dict({t: S.int}), {t: "x"}), (S.dict({t: S.int}), {}), (S.dict({}), {t: 1}),
                 (S.dict({t: S.dict({"a": S.int})}), {t: {"a": 1, "b": 2, t: 3}}),
                 (S.dict({t: S.list([S.int])}), {t: [1, t]}), (S.dict({t: S.list([S.int])}), {t: []}),
                 (S.list(S.dict({t: S.str.len(0)})), [{t: t}, {t: ""}, {}, {t: 1}]),
                 (S.str.alphabet(t), t + "q"), (S.str.contains(t), "q"), (S.str.len(99), t),
                 (S.str.len(99, ...), t), (S.str.len(..., 0), t), (S.any(S.str(t), S.int), None),
                 (S.any(S.str("q"), S.int), t), (S.alias(t, S.int), t),
                 (S.dict({t: S.any(S.int, S.none)}), {t: t}), (S.list([S.str(t)]), [t + t]),
                 (S.uuid4, t), (S.bytes(t.encode()), t), (S.dict({t: S.dict({t: S.int})}), {t: {t: t}}),
                 (S.dict({t: S.list([..., S.int])}), {t: []}), (S.dict({(t,): S.int}), {(t, t): 1})]
        for b, v in pairs:
            m.count("format_texts")
            check(m, rng, b, v, schema=repr(b))


def d_prickly(m, rng):
    """Opaque objects whose own special methods refuse to work (arrays, matchers, proxies)."""
    S = d42.schema
    schemas = [S.none, S.bool(True), S.int, S.int(5), S.int.min(1).max(9), S.float.min(0.5),
               S.float(1.5).precision(1), S.str, S.str("abc"), S.str.len(1), S.str.alphabet("ab"),
               S.str.contains("b"), S.str.regex("^a"), S.bytes(b"x"), S.uuid4(values.UUIDS[0]),
               S.datetime(values.DATETIMES[0]), S.date(values.DATES[0]), S.any, S.any(S.int, S.str),
               S.list, S.list.len(2), S.list(S.int), S.list(S.any), S.list([S.int]),
               S.list([S.any, ...]), S.list([S.int, ...]), S.list([..., S.int]),
               S.list([..., S.any, S.int, ...]), S.dict, S.dict({}), S.dict({"a": S.int}),
               S.dict({"a": S.any, ...: ...}), S.dict({d42.optional("a"): S.any(S.int, S.none)}),
               S.alias("A", S.any(S.int, S.list([S.int]))), S.list(S.dict({"a": S.list([S.str])}))]
    for b in schemas:
        for cls in values.PRICKLY:
            for v in (cls(), [cls()], [1, cls(), cls()], {"a": cls()}, {cls(): 1}, {"a": 1, cls(): cls()},
                      [{"a": [cls()]}], [[cls(), 1]]):
                m.count("prickly")
                check(m, rng, b, v, schema=repr(b))


DIRECTED = [d_zoo_scalars, d_bounds, d_formats, d_prickly] + [d_scale] * 20
