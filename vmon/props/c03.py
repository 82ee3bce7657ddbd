"""Every error object is true and points at the offending sub-value."""
import collections
import datetime as dt
import uuid

import d42
from d42.validation import Formatter
from d42.validation import errors as E

from .. import alike, common as C, scale, spec as sp, values

CASES = {"quick": 100000, "thorough": 2000000}
EVALUATIONS = "errors_checked"
MIN = {"errors_checked": 100000, "depth>=2": 15000, "multi_error_results": 10000,
       "members_compared": 10000}
KIND_OF = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str",
           bytes: "bytes", list: "list", dict: "dict", uuid.UUID: "uuid4",
           dt.datetime: "datetime", dt.date: "date"}
RULE = ("one evaluation = one error returned by validate() (or by the substitution validator) for "
        "a perturbed value: its path is walked from the root with an independent walker, the "
        "sub-value must be the reported one, the stated fact is re-checked against the reference "
        "model of the schema at that path and the rendered message must name the path; "
        "distinct_nontrivial counts distinct (error class, path, schema text)")


def operands(path):
    return tuple(x.operand for x in path)


def rendered(path, root="_"):
    return root + "".join("[%s]" % sp.vrepr(x, 10 ** 6) for x in path)


def candidates(n, path, v):
    """Specs that govern the sub-value at `path`; no descent into `any` alternatives (an
    alternative's own error is not a fact about the schema)."""
    cur = [(n, v)]
    for step in path:
        cur = [y for x in cur if x[0].kind != "any" for y in sp.specs_at(x[0], (step,), x[1])]
    return [s for s, _ in cur]


def flat_alts(s):
    out = []
    for x in s.get("alts", []):
        out += flat_alts(x) if x.kind == "any" and x.has("alts") else [x]
    return out


def fact_holds(e, s, v, partial):
    """Is the error's statement true of sub-value v under spec s?"""
    a = s.a
    t = type(e)
    if t is E.TypeValidationError:
        return KIND_OF.get(e.expected_type) == s.kind and not isinstance(v, e.expected_type)
    if s.kind in sp.PY_TYPES and not isinstance(v, sp.PY_TYPES[s.kind]):
        return False
    if t is E.ValueValidationError:
        if not s.has("value") or not values.same(e.expected_value, a["value"]):
            return False
        if s.kind == "float":
            return not sp.float_eq(v, a["value"], a.get("precision"))
        return not (v == a["value"])
    if t is E.MinValueValidationError:
        return s.has("min") and values.same(e.min_value, a["min"]) and not (v >= a["min"])
    if t is E.MaxValueValidationError:
        return s.has("max") and values.same(e.max_value, a["max"]) and not (v <= a["max"])
    if t is E.LengthValidationError:
        return s.has("len") and e.length == a["len"] and len(v) != a["len"]
    if t is E.MinLengthValidationError:
        return s.has("min_len") and e.min_length == a["min_len"] and len(v) < a["min_len"]
    if t is E.MaxLengthValidationError:
        return s.has("max_len") and e.max_length == a["max_len"] and len(v) > a["max_len"]
    if t is E.AlphabetValidationError:
        return s.has("alphabet") and e.alphabet == a["alphabet"] and \
            any(c not in a["alphabet"] for c in v)
    if t is E.SubstrValidationError:
        return s.has("substr") and e.substr == a["substr"] and a["substr"] not in v
    if t is E.RegexValidationError:
        return s.has("pattern") and e.pattern == a["pattern"] and \
            sp.re.search(a["pattern"], v) is None
    if t is E.MissingElementValidationError:
        if s.kind != "list" or not s.has("elems") or type(e.index) is not int:
            return False
        k = len(a["elems"])
        if s.get("head") and s.get("tail"):
            return len(v) <= e.index < len(v) + k
        return len(v) <= e.index < k
    if t is E.ExtraElementValidationError:
        return s.kind == "list" and s.has("elems") and not s.get("head") and not s.get("tail") \
            and type(e.index) is int and len(a["elems"]) <= e.index < len(v)
    if t is E.MissingKeyValidationError:
        return not partial and s.kind == "dict" and e.missing_key not in v and \
            any(k == e.missing_key and not o for k, _, o in s.get("keys", []))
    if t is E.ExtraKeyValidationError:
        return s.kind == "dict" and s.has("keys") and not s.get("relaxed") and e.extra_key in v \
            and not any(k == e.extra_key for k, _, _ in a["keys"])
    if t is E.SchemaMismatchValidationError:
        alts = flat_alts(s)      # `any` behind an alias is not flattened
        return s.kind == "any" and s.has("alts") and \
            len(a["alts"]) <= len(e.expected_schemas) <= len(alts) and \
            (partial or not any(sp.conforms(x, v) for x in alts)) and \
            all(d42.validate(x, v).has_errors() or partial for x in e.expected_schemas)
    if t is E.InvalidUUIDVersionValidationError:
        return s.kind == "uuid4" and v.version != 4 and e.actual_version == v.version and \
            e.expected_version == 4
    return False


STATED = sorted({"expected_value", "min_value", "max_value", "length", "min_length", "max_length",
          "alphabet", "substr", "pattern", "index", "missing_key", "extra_key"})


def check_error(m, e, s, n, v, before, partial, via):
    w = dict(schema=sp.describe(s), value=sp.vrepr(v, 1500), error=type(e).__name__,
             path=rendered(before), via=via)
    try:
        sub = sp.get_at(v, before)
    except Exception as x:
        m.fail("error path does not lead anywhere: %r" % (x,), **w)
    act = e.actual_value
    if act is not sub and not values.same(act, sub):
        m.fail("error reports another value than the one at its path", reported=act, there=sub,
               **w)
    cands = candidates(n, before, v)
    if not cands:
        m.fail("no part of the schema governs the error's path", **w)
    if not any(fact_holds(e, c, sub, partial) for c in cands):
        m.fail("the stated fact is not true of the sub-value", reported=sp.vrepr(act),
               stated=sp.vrepr({k: getattr(e, k) for k in STATED if hasattr(e, k)}), **w)
    # the message
    text = m.call("format", e.format, Formatter(), witness=w)
    where = before
    if isinstance(e, E.MissingKeyValidationError):
        where = before + (e.missing_key,)
    if isinstance(e, E.MissingElementValidationError):
        where = before + (e.index,)
    printable = "<unprintable" not in rendered(where)
    if where:
        if printable and rendered(where) not in text:
            m.fail("the message does not name the path %s" % rendered(where), message=text, **w)
        if printable and rendered(where) + "[" in text and \
                rendered(where) + "[" not in sp.vrepr(v, 10 ** 6):
            m.fail("the message names a longer path than %s" % rendered(where), message=text, **w)
    elif " at _" in text and " at _" not in sp.vrepr(v, 10 ** 6):
        m.fail("the message names a path for an error at the root", message=text, **w)
    if isinstance(e, (E.ExtraKeyValidationError, E.ExtraElementValidationError)):
        extra = e.extra_key if isinstance(e, E.ExtraKeyValidationError) else e.index
        if "<unprintable" not in sp.vrepr(extra) and sp.vrepr(extra, 10 ** 6) not in text:
            m.fail("the message does not name the extra member", message=text, **w)
    if where and printable:
        t2 = m.call("format", e.format, Formatter("root"), witness=w)
        if rendered(where, "root") not in t2:
            m.fail("the message does not use the formatter's root", message=t2, **w)
    if m.call("format", e.format, Formatter(), witness=w) != text:
        m.fail("formatting an error twice gives different messages", **w)
    if operands(e.path) != before:
        m.fail("formatting an error changed its path to %r" % (operands(e.path),), **w)
    m.count("errors_checked")
    m.count("error:" + type(e).__name__)
    if len(before) >= 2:
        m.count("depth>=2")
    m.distinct(type(e).__name__, rendered(before), sp.describe(s))


def check_errors(m, errors, s, n, v, partial, via):
    before = [operands(e.path) for e in errors]
    if len(errors) > 1:
        m.count("multi_error_results")
    for e, p in zip(errors, before):
        check_error(m, e, s, n, v, p, partial, via)
    if [operands(e.path) for e in errors] != before:
        m.fail("paths of the errors changed while formatting", schema=sp.describe(s), value=v)


def fact_key(e):
    """Equal for errors that state the same; equal keys (1 and True) name the same entry."""
    stated = {k: getattr(e, k) for k in STATED if hasattr(e, k)}
    key = [stated.pop(k) for k in ("missing_key", "extra_key") if k in stated]
    return (type(e).__name__, operands(e.path), tuple(key), sp.vrepr(stated, 2000))


def check_leaks(m, errors, n, v, rng):
    """Errors below a member must be errors of that member: validating the member on its own
    reports each of them at least as often (errors of siblings would come in addition)."""
    below = {}
    for e in errors:
        p = operands(e.path)
        for i in range(1, len(p) + 1):
            below.setdefault(p[:i], []).append(e)
    for p in rng.sample(list(below), min(4, len(below))):
        cands = candidates(n, p, v)
        if len(cands) != 1:
            continue
        sub = sp.get_at(v, p)
        own = collections.Counter(map(fact_key, m.call(
            "validate", d42.validate, m.build(cands[0], C.env()), sub).get_errors()))
        for e in below[p]:
            name, path, key, stated = fact_key(e)
            key = (name, path[len(p):], key, stated)
            own[key] -= 1
            if own[key] < 0:
                m.fail("an error that the member itself does not have is reported below it",
                       member=rendered(p), error=name, path=rendered(path), stated=(key[2], stated),
                       value=sp.vrepr(v, 1500))
        m.count("members_compared")


def spoil(n, rng):
    """A conforming value with 1..4 independent perturbations."""
    v = sp.sample(n, rng)
    for _ in range(rng.pick([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.45:
            v = values.perturb(v, rng)[1]
        elif r < 0.85:
            pos = sp.sub_positions(n, v)
            path, s2, _ = rng.pick(pos)
            bs = values.boundary(s2, rng)
            bad = rng.pick(bs) if bs else values.plain_value(rng, 1)
            v = sp.set_at(v, path, bad)
            while path and rng.chance(0.25):     # the same wrong object in several places
                path, _, _ = rng.pick(pos)
                try:
                    v = sp.set_at(v, path, bad)
                except (LookupError, TypeError):     # a container on the way was replaced
                    break
        else:
            p = rng.pick(values.positions(v))
            v = sp.set_at(v, p, values.zoo(rng) if rng.chance(.3) else values.plain_value(rng, 1))
    return v


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(0.1), big=rng.chance(0.05), max_width=5)
    s = g.rich(rng.pick([1, 2, 3, 4])) if rng.chance(0.85) else g.gen(1)
    n = sp.norm(s)
    b = m.build(s, C.env())
    m.sample(sp.describe(s))
    for _ in range(4):
        v = spoil(n, rng)
        res = m.call("validate", d42.validate, b, v,
                     witness=dict(schema=sp.describe(s), value=sp.vrepr(v)))
        check_errors(m, res.get_errors(), s, n, v, False, "validate")
        if rng.chance(0.3):
            check_leaks(m, res.get_errors(), n, v, rng)
    v = C.partial(spoil(n, rng), rng, 0.2) if rng.chance(0.5) else spoil(n, rng)
    sv = getattr(d42.substitution.Substitutor(), "validator", None)
    if sv is not None and _no_ellipsis(v):
        out = m.attempt("substitution validator", lambda: b.__accept__(sv, value=v))
        if out.ok:
            m.count("substitution_validations")
            check_errors(m, out.value.get_errors(), s, n, v, True, "substitution validator")


def _no_ellipsis(v):
    if isinstance(v, (list, tuple)):
        return all(map(_no_ellipsis, v))
    if isinstance(v, dict):
        return all(_no_ellipsis(k) and _no_ellipsis(x) for k, x in v.items())
    return v is not Ellipsis


def d_scale(m, rng):
    """Errors in texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, vals in scale.all_of(rng, text=5000, members=1100, width=130):
        n = sp.norm(s)
        b = m.build(s, C.env())
        for v in vals:
            res = m.call("validate", d42.validate, b, v,
                         witness=dict(schema=sp.describe(s)[:500], value=sp.vrepr(v)))
            errors = res.get_errors()
            m.count("scale_results")
            check_errors(m, errors, s, n, v, False, "validate")
            if len(errors) < 50:
                check_leaks(m, errors, n, v, rng)


def d_alike(m, rng):
    """Declarations that look alike, each with values of all of them."""
    for family, s in alike.families(m, rng, 40):
        n, b = sp.norm(s), m.build(s, C.env())
        for x in [s] + rng.sample(family, min(3, len(family))):
            v = sp.sample(sp.norm(x), rng)
            check_errors(m, m.call("validate", d42.validate, b, v).get_errors(), s, n, v, False, "validate")


DIRECTED = [d_scale] * 12 + [d_alike] * 6
