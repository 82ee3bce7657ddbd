"""Custom schema types behave like built-ins in every position."""
import d42
from d42.custom_type import CustomSchema, PathHolder, Props, register_type
from d42.generation import Generator, Random, RegexGenerator
from d42.representation import Representor, represent
from d42.substitution import SubstitutorValidator
from d42.validation import Formatter, ValidationResult, Validator, format_result
from d42.validation.errors import TypeValidationError
from niltype import Nil

from .. import common as C, sched, spec as sp, values
from ..spec import Spec, nodes, put

CASES = {"quick": 10500, "thorough": 900000}
EVALUATIONS = "observations"
MIN = {"observations": 400000, "errors_compared": 100000, "substituted": 20000,
       "substitution_failed": 10000, "custom_nodes": 10000, "generated": 12000,
       "texts": 60000}
RULE = ("one evaluation = one observation made on two schemas built from one declaration, once "
        "with built-ins only and once with random nodes wrapped into forwarding custom types (three "
        "forwarding styles, nested wraps included): validation errors (class, every public "
        "attribute, path, rendered text, order), verdict methods, printed forms at several "
        "indents, generated values and substitution outcomes must agree; distinct_nontrivial "
        "counts distinct (declaration with marked nodes, value) texts")
ASSUMPTIONS = ["operands of + and make_required stay built-in (they require dict schemas)",
               "a custom type forwarding to `any` is not placed directly among the alternatives of "
               "another any: see the known finding any_in_any"]


class HeldProps(Props):
    @property
    def target(self):
        return self.get("target")


class Held(CustomSchema[HeldProps]):
    """Keeps its target in props; substitution gives the same custom type."""

    def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
        return self.props.target.__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        return self.props.target.__accept__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        return self.props.target.__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, *, value=Nil, **kwargs):
        target = self.props.target.__accept__(visitor, value=value, **kwargs)
        return self.__class__(self.props.update(target=target))


class Thin(CustomSchema[HeldProps]):
    """Forwards the named arguments only; substitution gives what the target gives."""

    def __validate__(self, visitor, *, value, path, **kwargs):
        return self.props.target.__accept__(visitor, value=value, path=path)

    def __generate__(self, visitor, **kwargs):
        return self.props.target.__accept__(visitor)

    def __represent__(self, visitor, *, indent, **kwargs):
        return self.props.target.__accept__(visitor, indent=indent)

    def __substitute__(self, visitor, *, value, **kwargs):
        return self.props.target.__accept__(visitor, value=value)


KINDS = {"schema.none": type(None), "schema.int": int, "schema.float": float, "schema.str": str,
         "schema.bytes": bytes}


class Own(CustomSchema[HeldProps]):
    """Does everything itself, as a leaf type of a user would: errors made from the given path."""

    def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
        result = ValidationResult()
        kind = KINDS[repr(self.props.target)]
        if not isinstance(value, kind) or (kind is int and isinstance(value, bool)):
            result.add_error(TypeValidationError(path, value, kind))
        return result

    def __generate__(self, visitor, **kwargs):
        return d42.fake(self.props.target)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        return repr(self.props.target)

    def __substitute__(self, visitor, *, value=Nil, **kwargs):
        return d42.substitute(self.props.target, value)


class Decoy(Held):
    """Its properties are called like those of built-in types, but mean nothing to the library."""
    type = list


def decoy(b):
    none = d42.schema.none
    return Decoy(HeldProps({"target": b, "value": "decoy", "types": (none, none), "type": none,
                            "elements": [..., none, ...], "keys": {"decoy": (none, False)},
                            "name": "Decoy", "len": 77, "min_len": 77, "max_len": 0, "min": 1,
                            "max": 0, "precision": 0, "alphabet": "", "substr": "decoy",
                            "pattern": "decoy"}))


class Twins(sp.Env):
    """Builds `custom` nodes as forwarding custom types (real=True) or as their target."""

    def __init__(self, real):
        super().__init__()
        self.custom = self.wrap if real else (lambda b: b)
        self.style = 0

    def wrap(self, b):
        self.style += 1
        if self.style % 4 < 2 and repr(b) in KINDS:
            return Own(HeldProps({"target": b}))
        if self.style % 5 == 2:
            return decoy(b)
        cls = (Held, Thin, Held)[self.style % 3]
        return cls(HeldProps({"target": b}))


def core(s):
    while s.kind == "custom":
        s = s.a["target"]
    return s


def wrappable(s, path, x):
    """May the node at `path` become a custom type?"""
    if not path:
        return True
    name = path[-1][0]
    if name == "base":
        return False
    if name in ("left", "right"):
        parent = dict(nodes(s))[path[:-1]]
        return parent.kind == "or" and core(x).kind not in ("any", "or")
    if name == "alts":
        return core(x).kind not in ("any", "or")
    if name == "target":
        # custom of custom of any among alternatives
        parent = dict(nodes(s))[path[:-1]]
        if parent.kind == "custom":
            return wrappable(s, path[:-1], parent)
    return True


def mark(s, rng, p):
    """Wrap random nodes; deeper nodes first so that paths stay valid."""
    n = 0
    for path, x in sorted(nodes(s), key=lambda y: -len(y[0])):
        if rng.chance(p) and wrappable(s, path, x):
            for _ in range(rng.pick([1, 1, 1, 2])):
                x = Spec("custom", target=x)
                n += 1
            s = put(s, path, x)
    return s, n


# ---------------------------------------------------------------- observations

def facts(e):
    """Everything an error object states, in a comparable form."""
    out = {"class": type(e).__name__}
    for name in dir(e):
        if name.startswith("_"):
            continue
        v = getattr(e, name)
        if callable(v):
            continue
        out[name] = v
    return out


def same_fact(a, b):
    if isinstance(a, PathHolder) and isinstance(b, PathHolder):
        xs, ys = [[(type(x), x.operand) for x in p] for p in (a, b)]
        return len(xs) == len(ys) and all(
            t is u and (x is y or x == y) for (t, x), (u, y) in zip(xs, ys))
    if is_schema(a) and is_schema(b):
        return represent(a) == represent(b)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and any(map(is_schema, a)):
        return len(a) == len(b) and all(map(same_fact, a, b))
    return a is b or values.same(a, b)


def is_schema(x):
    return isinstance(x, d42.custom_type.Schema)


def compare_errors(m, got, want, v, w, what):
    g, x = got.get_errors(), want.get_errors()
    m.count("observations")
    w = dict(w, value=sp.vrepr(v, 1000), via=what)
    f = Formatter()
    gt, xt = [e.format(f) for e in g], [e.format(f) for e in x]
    if len(g) != len(x):
        m.fail("a different number of errors with custom types", custom=gt, builtin=xt, **w)
    for e1, e2, t1, t2 in zip(g, x, gt, xt):
        m.count("errors_compared")
        a, b = facts(e1), facts(e2)
        if a.keys() != b.keys() or a["class"] != b["class"]:
            m.fail("another error class with custom types", custom=t1, builtin=t2, **w)
        for k in a:
            if k != "class" and not same_fact(a[k], b[k]):
                m.fail("an error's %s differs with custom types" % k, custom=t1, builtin=t2,
                       custom_value=a[k], builtin_value=b[k], **w)
        if t1 != t2:
            m.fail("an error renders differently with custom types", custom=t1, builtin=t2, **w)
    if got.has_errors() != want.has_errors():
        m.fail("has_errors() differs with custom types", **w)
    m.count("observations")
    if format_result(got) != format_result(want):
        m.fail("format_result differs with custom types", **w)


def outcome(m, what, fn):
    out = m.attempt(what, fn)
    return ("ok", out.value) if out.ok else (type(out.exc).__name__, str(out.exc))


def validation(m, rng, a, b, vals, w):
    """a: with custom types, b: built-ins only."""
    validators = [("validate", d42.validate)]
    if rng.chance(.4):
        validators.append(("SubstitutorValidator",
                           lambda s, v: s.__accept__(SubstitutorValidator(), value=v)))
    if rng.chance(.4):
        prefix = rng.pick([("x",), (0,), ("a", 3), (None, "b c", ("t",))])

        def at(s, v):
            p = PathHolder()
            for k in prefix:
                p = p[k]
            return s.__accept__(Validator(), value=v, path=p)
        validators.append(("Validator(path=%r)" % (prefix,), at))
    for v in vals:
        for name, fn in validators:
            x = m.call(name, fn, a, v, witness=dict(w, value=sp.vrepr(v)))
            y = m.call(name, fn, b, v, witness=dict(w, value=sp.vrepr(v)))
            compare_errors(m, x, y, v, w, name)
        m.distinct(w["schema"], sp.vrepr(v))
    for v in vals[:4]:
        for name, fn in (("validate_or_fail", lambda s: d42.validate_or_fail(s, v)),
                         ("==", lambda s: s == v), ("!=", lambda s: s != v),
                         ("reflected ==", lambda s: v == s)):
            m.count("observations")
            x, y = outcome(m, name, lambda: fn(a)), outcome(m, name, lambda: fn(b))
            if x != y:
                m.fail("%s differs with custom types" % name, custom=x, builtin=y, value=v, **w)


def texts(m, rng, a, b, w):
    k = rng.pick([0, 1, 2, 3, 8])
    for name, fn in (("repr", repr), ("represent", represent), ("str", str),
                     ("indent=%d" % k, lambda s: s.__accept__(Representor(indent=k))),
                     ("at indent=%d" % k, lambda s: s.__accept__(Representor(), indent=k))):
        m.count("observations")
        m.count("texts")
        x, y = m.call(name, fn, a, witness=w), m.call(name, fn, b, witness=w)
        if x != y:
            m.fail("the printed form differs with custom types", custom=x, builtin=y, via=name, **w)


def generation(m, rng, a, b, n, w):
    for schedule in (sched.Schedule("min"), sched.Schedule("max"), sched.Schedule("ext", rng)):
        m.count("observations")
        m.count("generated")
        x = C.fake(m, a, schedule, **w)
        if n is not None and not sp.conforms(n, x):
            m.fail("a value generated with custom types does not conform", generated=x, **w)
        if d42.validate(b, x).has_errors():
            m.fail("a value generated with custom types is rejected by the built-in twin",
                   generated=x, **w)


def substitution(m, rng, a, b, n, vals, w, depth=0):
    for v in vals:
        m.count("observations")
        x = m.attempt("substitute", d42.substitute, a, v)
        y = m.attempt("substitute", d42.substitute, b, v)
        ww = dict(w, substituted=sp.vrepr(v))
        if x.ok != y.ok:
            bad = (x if not x.ok else y).exc
            m.fail("substitution %s with custom types only" %
                   ("succeeds" if x.ok else "fails"), error=sp.vrepr(bad), **ww)
        if not x.ok:
            m.count("substitution_failed")
            if type(x.exc) is not type(y.exc) or str(x.exc) != str(y.exc):
                m.fail("substitution fails differently with custom types",
                       custom=sp.vrepr(x.exc), builtin=sp.vrepr(y.exc), **ww)
            continue
        m.count("substituted")
        a2, b2 = x.value, y.value
        texts(m, rng, a2, b2, ww)
        probes = [v] + [values.perturb(v, rng)[1] for _ in range(2)] + C.drop_each_key(v, 2)
        if n is not None and sp.sat(n):
            probes += C.probe_values(n, rng, 2)
            c = C.complete(n, v, rng)
            if c is not sp.MISSING:
                probes.append(c)
        validation(m, rng, a2, b2, probes, ww)
        if depth < 1 and rng.chance(.5):
            substitution(m, rng, a2, b2, None, [v, rng.pick(probes)], ww, depth + 1)


def placeholders(v, rng, p=.15):
    if rng.chance(p):
        return ...
    if type(v) is list:
        out = [placeholders(x, rng, p) for x in v]
        if rng.chance(.2):
            out = rng.pick([out + [...], [...] + out, [...] + out + [...]])
        return out
    if type(v) is dict:
        out = {k: placeholders(x, rng, p) for k, x in v.items()}
        if rng.chance(.1):
            out[...] = ...
        return out
    return v


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(.05), nondet=True, unsat=rng.chance(.05))
    s = g.rich(rng.pick([1, 1, 2, 2, 3, 4])) if rng.chance(.85) else g.gen(rng.pick([0, 1, 2]))
    s, count = mark(s, rng, rng.pick([.15, .3, .6, 1.0]))
    if count == 0:
        s = Spec("custom", target=s)
        count = 1
    n = sp.norm(s)
    twins = Twins(True)
    twins.style = rng._randbelow(12)
    style = twins.style
    a, b = m.build(s, twins), m.build(s, Twins(False))
    m.count("custom_nodes", count)
    for path, x in nodes(s):
        if x.kind == "custom":
            m.count("position:" + (path[-1][0] if path else "root"))
            m.count("target:" + core(x).kind)
    w = dict(schema=sp.describe(s))
    m.sample(w["schema"])
    ok = sp.sat(n)
    vals = C.probe_values(n, rng, 6, zoo=True) if ok else [values.plain_value(rng, 2)
                                                          for _ in range(3)]
    if ok:
        vals += C.drop_each_key(vals[0], 3)
        generation(m, rng, a, b, n, w)
    texts(m, rng, a, b, w)
    validation(m, rng, a, b, vals, w)
    subs = vals[:3] + [C.partial(vals[0], rng)]
    if rng.chance(.3):
        subs.append(placeholders(vals[0], rng))
    if rng.chance(.2):
        subs.append(values.zoo(rng))
    substitution(m, rng, a, b, n, subs, w)
    twins.style = style
    m.count("observations")
    again = sp.build(s, twins)
    if not (again == a) or a != again:
        m.fail("rebuilding the declaration with custom types gives an unequal schema", **w)


# ---------------------------------------------------------------- directed

LEAVES = [Spec("none"), Spec("bool"), Spec("bool", value=True), Spec("int"),
          Spec("int", min=1, max=3), Spec("float", min=0.5, precision=2), Spec("float", value=1.5),
          Spec("str", min_len=1, max_len=4), Spec("str", value="ab"), Spec("str", substr="b", len=3),
          Spec("str", alphabet="ab"), Spec("bytes"), Spec("uuid4"), Spec("datetime"), Spec("date"),
          Spec("list"), Spec("list", elem=Spec("int")), Spec("list", elems=[Spec("int"), Spec("str")]),
          Spec("list", elems=[Spec("int")], head=True, tail=True),
          Spec("dict"), Spec("dict", keys=[("x", Spec("int"), False), ("y", Spec("str"), True)]),
          Spec("dict", keys=[("x", Spec("int"), False)], relaxed=True),
          Spec("dict", keys=[("x", Spec("dict", keys=[("z", Spec("list", elem=Spec("int")),
                                                       False)]), False)]),
          Spec("any"), Spec("any", alts=[Spec("int"), Spec("str")]),
          Spec("alias", name="T", target=Spec("list", elem=Spec("str")))]
POSITIONS = [
    ("root", lambda s: s, lambda v: v),
    ("typed list", lambda s: Spec("list", elem=s), lambda v: [v, v]),
    ("typed list len", lambda s: Spec("list", elem=s, len=2), lambda v: [v, v]),
    ("exact list", lambda s: Spec("list", elems=[Spec("none"), s, Spec("none")]),
     lambda v: [None, v, None]),
    ("head list", lambda s: Spec("list", elems=[s], tail=True), lambda v: [v, 7]),
    ("tail list", lambda s: Spec("list", elems=[s], head=True), lambda v: [7, v]),
    ("contains list", lambda s: Spec("list", elems=[s, Spec("none")], head=True, tail=True),
     lambda v: [7, v, None, 8]),
    ("dict value", lambda s: Spec("dict", keys=[("a", s, False), ("b", Spec("int"), True)]),
     lambda v: {"a": v}),
    ("optional dict value", lambda s: Spec("dict", keys=[("a", s, True)]), lambda v: {"a": v}),
    ("relaxed dict value", lambda s: Spec("dict", keys=[("a", s, False)], relaxed=True),
     lambda v: {"a": v, "q": 0}),
    ("alias", lambda s: Spec("alias", name="T", target=s), lambda v: v),
    ("deep", lambda s: Spec("dict", keys=[("k", Spec("list", elem=Spec("dict", keys=[
        ("v", Spec("alias", name="T", target=s), False)])), False)]),
     lambda v: {"k": [{"v": v}]}),
    ("sum", lambda s: Spec("add", left=Spec("dict", keys=[("a", s, False)]),
                           right=Spec("dict", keys=[("b", Spec("int"), True)])),
     lambda v: {"a": v}),
    ("required", lambda s: Spec("req", base=Spec("dict", keys=[("a", s, True)]), names=["a"]),
     lambda v: {"a": v}),
    ("any", lambda s: Spec("any", alts=[s, Spec("bytes", value=b"?")]), lambda v: v),
    ("any 2nd", lambda s: Spec("any", alts=[Spec("bytes", value=b"?"), s]), lambda v: v),
    ("or", lambda s: Spec("or", left=s, right=Spec("bytes", value=b"?")), lambda v: v),
    ("or right", lambda s: Spec("or", left=Spec("bytes", value=b"?"), right=s), lambda v: v),
]


def d_catalogue(m, rng, leaves=LEAVES):
    """Every leaf kind in every position, both forwarding styles."""
    for leaf in leaves:
        n0 = sp.norm(leaf)
        for name, ws, wv in POSITIONS:
            if core(leaf).kind == "any" and name.split()[0] in ("any", "or"):
                continue
            s = ws(Spec("custom", target=leaf))
            n = sp.norm(s)
            for style in (0, 1, 11):
                t = Twins(True)
                t.style = style
                a, b = m.build(s, t), m.build(s, Twins(False))
                w = dict(schema=sp.describe(s), position=name)
                good = wv(sp.sample(n0, rng))
                vals = [good, wv(object()), wv(None), wv("ab"), wv(7), wv([1, "x"]), wv([7, 8]),
                        wv({"x": "no"}), wv({"x": {"z": ["no"]}}), wv({}), None, [], {},
                        values.perturb(good, rng)[1], values.perturb(good, rng)[1]]
                texts(m, rng, a, b, w)
                validation(m, rng, a, b, vals, w)
                generation(m, rng, a, b, n, w)
                substitution(m, rng, a, b, n, vals, w)


def d_registered(m, rng):
    """A registered type is usable through `schema` like a built-in."""
    class Account(CustomSchema[HeldProps]):
        def __init__(self, props=Nil):
            super().__init__(HeldProps({"target": d42.schema.str.len(3)})
                             if props is Nil else props)

    for name in ("__validate__", "__generate__", "__represent__", "__substitute__"):
        setattr(Account, name, getattr(Held, name))
    m.call("register_type", register_type, "vmon_account", Account)
    one = d42.schema.vmon_account
    if type(one) is not Account:
        m.fail("schema.<registered name> is %s" % type(one).__name__)
    for make in (lambda x: x, lambda x: d42.schema.list(x), lambda x: d42.schema.list([..., x]),
                 lambda x: d42.schema.dict({"k": x}), lambda x: d42.schema.any(x, d42.schema.none),
                 lambda x: x | d42.schema.none, lambda x: d42.schema.none | x,
                 lambda x: d42.schema.alias("T", x),
                 lambda x: d42.schema.dict({d42.optional("k"): x, ...: ...}),
                 lambda x: d42.schema.dict({"k": d42.schema.int}) + d42.schema.dict({"k": x})):
        a, b = make(d42.schema.vmon_account), make(d42.schema.str.len(3))
        w = dict(schema=repr(b))
        vals = ["abc", "ab", None, 5, ["abc"], ["ab", 1], ["abc", "abd"], {"k": "abc"}, {"k": "ab"},
                {"k": 5}, {}, [], {"k": "abc", "z": 1}]
        texts(m, rng, a, b, w)
        validation(m, rng, a, b, vals, w)
        generation(m, rng, a, b, None, w)
        substitution(m, rng, a, b, None, vals, w)
        m.count("observations", 2)
        for v in vals:
            x, y = outcome(m, "%", lambda: a % v), outcome(m, "%", lambda: b % v)
            if x[0] != y[0] or (x[0] != "ok" and x != y) or (x[0] == "ok" and
                                                            repr(x[1]) != repr(y[1])):
                m.fail("schema %% value differs with a registered type", custom=x, builtin=y, **w)
        r = Random()
        r.set_seed(5)
        x = a.__accept__(Generator(r, RegexGenerator(r)))
        if d42.validate(b, x).has_errors() or d42.validate(b, ~a).has_errors():
            m.fail("a registered type generates a value the built-in rejects", generated=x, **w)


def _impostors():
    """Custom types that share one name, module and qualified name, but not their hooks."""
    def make(target):
        class Amount(CustomSchema[HeldProps]):
            def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
                return target.__accept__(visitor, value=value, path=path, **kwargs)

            def __generate__(self, visitor, **kwargs):
                return target.__accept__(visitor, **kwargs)

            def __represent__(self, visitor, *, indent=0, **kwargs):
                return target.__accept__(visitor, indent=indent, **kwargs)

            def __substitute__(self, visitor, *, value=Nil, **kwargs):
                return target.__accept__(visitor, value=value, **kwargs)
        return Amount(), target
    S = d42.schema
    return [make(b) for b in (
        S.int.min(1).max(3), S.str.len(2), S.list(S.none), S.dict({"a": S.int(5)}), S.float(0.5),
        S.alias("N", S.bytes), S.bool)]


def _heirs():
    """Custom types derived from one another, each with hooks of its own where it says so."""
    S = d42.schema
    hooks = ("__validate__", "__generate__", "__represent__", "__substitute__")
    out = []
    bases = [Held, Thin, type("Middle", (Held, ), {}), type("Mixed", (Thin, ), {"extra": 1})]
    for base in bases:
        for i, target in enumerate((S.int.min(1).max(3), S.str.len(2), S.list(S.none).len(1),
                                    S.dict({"a": S.int(5)}))):
            own = {}
            for h in hooks:
                def hook(self, visitor, target=target, **kwargs):
                    return target.__accept__(visitor, **kwargs)
                own[h] = hook
            # all hooks replaced: what the parent would do must not matter
            decoy = HeldProps({"target": S.bytes(b"decoy")})
            out.append((type("Heir%d" % i, (base, ), own)(decoy), target))
            # some hooks replaced, the others inherited: both mean the same target
            for h in hooks:
                out.append((type("Half%d" % i, (base, ), {h: own[h]})(HeldProps({"target": target})), target))
            grand = type("Grand%d" % i, (type("Heir%d" % i, (base, ), own), ), {})
            out.append((grand(decoy), target))
            slots = type("Late%d" % i, (base, ), {})
            late = slots(decoy)
            for h in hooks:
                setattr(slots, h, own[h])
            out.append((late, target))
    return out


def d_families(m, rng, pairs=None):
    """Custom types of one name, and of one ancestry, used side by side."""
    pairs = pairs or (_impostors() if rng.chance(.3) else _heirs())
    S = d42.schema
    makes = [lambda x: x, lambda x: S.list(x), lambda x: S.list([..., x]), lambda x: S.list([x, ...]),
             lambda x: S.list([..., x, ...]), lambda x: S.list([x, x]), lambda x: S.dict({"k": x}),
             lambda x: S.dict({d42.optional("k"): x, ...: ...}), lambda x: S.any(S.none, x), lambda x: x | S.none,
             lambda x: S.alias("T", x), lambda x: S.dict({"j": S.int}) + S.dict({"k": x}),
             lambda x: S.dict({"a": S.list([S.dict({"b": x})])})]
    for _ in range(2):
        rng.shuffle(pairs)
        for make in rng.sample(makes, 6):
            for real, target in pairs:
                m.count("custom_nodes")
                a, b = make(real), make(target)
                w = dict(schema=repr(b), custom_type=type(real).__name__, parent=type(real).__mro__[1].__name__)
                vals = [d42.fake(b), d42.fake(make(rng.pick(pairs)[1])), 2, "ab", [None], None]
                texts(m, rng, a, b, w)
                validation(m, rng, a, b, vals, w)
                generation(m, rng, a, b, None, w)
                for v in vals:
                    m.count("observations")
                    x = m.attempt("substitute", d42.substitute, a, v)
                    y = m.attempt("substitute", d42.substitute, b, v)
                    ww = dict(w, substituted=sp.vrepr(v))
                    if x.ok != y.ok or not x.ok and str(x.exc) != str(y.exc):
                        m.fail("substitution differs with custom types", custom=sp.vrepr(x.exc or x.value),
                               builtin=sp.vrepr(y.exc or y.value), **ww)
                    if not x.ok:
                        m.count("substitution_failed")
                        continue
                    m.count("substituted")
                    # an inheriting type keeps itself, so what it prints is compared, not what it is
                    if type(real).__name__[:4] == "Heir" or "Held" not in [c.__name__ for c in type(real).__mro__]:
                        texts(m, rng, x.value, y.value, ww)
                        validation(m, rng, x.value, y.value, [v, d42.fake(y.value), "zz"], ww)
    # two types of one name are not the same type, whatever they are asked
    if len(pairs) == 7:
        for i, (x, t) in enumerate(pairs):
            for j, (y, u) in enumerate(pairs):
                m.count("observations")
                v = d42.fake(u)
                if i != j and d42.validate(t, v).has_errors() != d42.validate(x, v).has_errors():
                    m.fail("a custom type answers for another one of its name", value=v, own=repr(t))


DIRECTED = [d_registered] + [(lambda m, rng: d_families(m, rng, _impostors()))] * 3 + [
    (lambda m, rng: d_families(m, rng, _heirs()))] * 3 + [
    (lambda m, rng, i=i: d_catalogue(m, rng, LEAVES[i::7])) for i in range(7)]


# ---------------------------------------------------------------- known findings

def _any_in_any():
    s = d42.schema
    inner = s.any(s.int, s.str)
    a = s.any(Held(HeldProps({"target": inner})), s.none)
    return repr(a) != repr(s.any(inner, s.none))


KNOWN = {"any_in_any": _any_in_any}
