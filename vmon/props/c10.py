"""A declaration either raises DeclarationError, receiver untouched, or is self-consistent."""
import d42
from d42.declaration import DeclarationError, Schema

from .. import common as C, ops, regextable, spec as sp, values
from ..spec import Spec

CASES = {"quick": 150000, "thorough": 3000000}
EVALUATIONS = "calls"
MIN = {"calls": 150000, "rejected": 50000, "accepted": 40000, "fixed_checked": 20000,
       "redeclarations": 8000, "contradictions": 3000, "fixed_lists": 800}
RULE = ("one evaluation = one refinement call in a chain of up to 4 (arguments: valid, boundary of "
        "the fixed value, contradictory, wrongly typed, Ellipsis, Nil, hostile), whose outcome "
        "class was checked; on rejection the receiver must still print, compare and validate as "
        "before; on success a fixed value (or fully fixed element list) must conform to the "
        "returned schema by validate and by the reference model; a repeated declaration of the "
        "same property must be rejected; distinct_nontrivial counts distinct (chain text)")
ASSUMPTIONS = ["wrong numbers of arguments (schema.any(), schema.int.min()) are Python TypeErrors "
               "by design and are not generated"]


def sub(rng, m, fixed):
    g = C.gen(rng, nan=True, big=rng.chance(.3), alias=False, combos=False, keys="all",
              fixed=0.9 if fixed else 0.5)

    def make():
        for _ in range(20):
            s = g.gen(rng.pick([0, 0, 0, 1]))
            if s.kind == "str" and s.has("pattern"):
                continue
            try:
                return m.build(s, C.env()), sp.norm(s)
            except Exception:
                continue
        return d42.schema.int, Spec("int")
    return make


def probes(s, rng, kind):
    out = [None, 0, True, 1.5, "", "a", "abc", b"", [], [1], {}, {"a": 1}]
    if s is not None:
        out += values.boundary(s, rng)[:8]
    return out


def fingerprint(m, b, ps, twin):
    try:
        r = repr(b)
    except Exception as e:
        m.fail("repr of a declared schema raised %s" % type(e).__name__, error=str(e))
    return (r, tuple(not d42.validate(b, p).has_errors() for p in ps), bool(b == twin))


def case(m, rng, idx):
    kind = rng.weighted([(1, "none"), (1, "bool"), (4, "int"), (5, "float"), (7, "str"),
                         (1, "bytes"), (2, "uuid4"), (1, "datetime"), (1, "date"), (6, "list"),
                         (3, "dict"), (2, "any")])
    if kind == "none":
        # no refinements: calling is not offered
        return
    args_of = ops.Args(rng, sub(rng, m, rng.chance(.7)))
    base = getattr(d42.schema, kind)
    b, s = base, Spec(kind)
    calls = []          # successful calls
    declared = set()
    names = ops.METHODS[kind]
    steps = 0
    wild = rng.pick([0.05, 0.25, 0.6])
    value_first = rng.chance(0.6) and kind in ("int", "float", "str", "list")
    while steps < 4:
        steps += 1
        name = rng.pick(names)
        if value_first and steps == 1:
            name = "call"
        args = args_of.draw(kind, name, s, wild)
        text = "schema." + kind + "".join(ops.call_text(*c) for c in calls) + \
            ops.call_text(name, args)
        ps = probes(s, rng, kind)
        twin = base
        for c in calls:
            twin = ops.apply_real(twin, *c)
        before = fingerprint(m, b, ps, twin)
        snap = [values.snapshot(a) for a in args]
        m.count("calls")
        out = m.attempt(name, ops.apply_real, b, name, args)
        w = dict(chain=text)
        m.distinct(text)
        if [values.snapshot(a) for a in args] != snap:
            m.fail("the declaration changed an argument", **w)
        if fingerprint(m, b, ps, twin) != before:
            m.fail("the receiver changed by a declaration call", outcome=out.ok,
                   before=before[0], **w)
        decl = ops.declares(kind, name, args)
        again = decl is not None and bool(decl & declared)
        if again:
            m.count("redeclarations")
        model = None
        if s is not None:
            try:
                model = ops.apply_model(s, name, args, args_of.spec_of)
            except Exception:
                model = None
        if not out.ok:
            if not isinstance(out.exc, DeclarationError):
                from ..monitor import d42_frame
                m.fail("a declaration raised %s instead of DeclarationError"
                       % type(out.exc).__name__, error=sp.vrepr(str(out.exc)),
                       at=str(d42_frame(out.exc, m.repo)), **w)
            if not str(out.exc):
                m.fail("a DeclarationError without a message", **w)
            m.count("rejected")
            if model is not None and not again:
                v = ops.fixed_value(model)
                if v is not sp.MISSING and not sp.conforms(model, v):
                    m.count("contradictions")
            continue
        m.count("accepted")
        r = out.value
        if not isinstance(r, Schema):
            m.fail("a declaration returned %r" % type(r).__name__, **w)
        if again:
            m.fail("re-declaring %s was accepted" % sorted(decl & declared), **w)
        declared |= decl or set()
        calls.append((name, args))
        b, s = r, model
        # a returned schema must be usable by the observers
        m.call("repr", repr, r, witness=w)
        fixed = sp.MISSING
        if kind in sp.SCALARS:
            for c in calls:
                if c[0] == "call":
                    fixed = c[1][0]
        elif s is not None and kind == "list":
            fixed = ops.fixed_value(s)
            if fixed is not sp.MISSING:
                m.count("fixed_lists")
        if fixed is not sp.MISSING:
            m.count("fixed_checked")
            w["fixed"] = sp.vrepr(fixed)
            if not C.verdict(m, r, fixed, **w):
                m.fail("the returned schema rejects its own fixed value", **w)
            if s is not None and not sp.conforms(s, fixed):
                m.fail("a constraint that contradicts the fixed value was accepted", **w)
        m.sample(text)
    if s is None:
        m.count("outside_model")


def d_regex(m, rng):
    """A pattern declared after a fixed text: contradictions are refused."""
    for p, yes, no in regextable.REGEXES:
        for v in yes + no:
            m.count("calls")
            w = dict(chain="schema.str(%r).regex(%r)" % (v, p))
            out = m.attempt("regex", lambda: d42.schema.str(v).regex(p))
            if not out.ok:
                m.count("rejected")
                if not isinstance(out.exc, DeclarationError):
                    m.fail("a declaration raised %s instead of DeclarationError" % type(out.exc).__name__, **w)
                continue
            m.count("accepted")
            m.count("fixed_checked")
            if v in no:
                m.fail("a constraint that contradicts the fixed value was accepted", **w)
            if not C.verdict(m, out.value, v, **w):
                m.fail("the returned schema rejects its own fixed value", **w)


def d_marker(m, rng):
    """The marker `...` anywhere but at the ends of an element list is refused, whatever the length."""
    S = d42.schema
    for n in list(range(1, 40)) + [64, 100, 101, 255, 256, 257]:
        for i in range(n + 1):
            for other in (None, 0, n):
                items = [S.int(1)] * n
                items.insert(i, ...)
                if other is not None:
                    items.insert(other, ...)
                at = [j for j, x in enumerate(items) if x is ...]
                m.count("calls")
                m.count("marker_places")
                out = m.attempt("list", lambda: S.list(items))
                w = dict(chain="schema.list of %d elements, ... at %s" % (len(items), at))
                if not out.ok:
                    m.count("rejected")
                    if not isinstance(out.exc, DeclarationError):
                        m.fail("a declaration raised %s instead of DeclarationError"
                               % type(out.exc).__name__, **w)
                    continue
                m.count("accepted")
                if any(0 < j < len(items) - 1 for j in at):
                    m.fail("a marker between elements was accepted", **w)
                k = len(items) - len(at)
                m.count("fixed_checked")
                if len(at) < len(items) and not C.verdict(m, out.value, [1] * k, **w):
                    m.fail("the returned schema rejects its own fixed elements", **w)
                for bad in (..., Ellipsis, "..."):
                    if not isinstance(m.attempt("list", lambda: out.value([bad])).exc, DeclarationError):
                        m.fail("elements were declared twice", **w)
                    m.count("rejected")


DIRECTED = [d_regex, d_marker]
