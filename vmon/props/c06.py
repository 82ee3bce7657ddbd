"""repr(schema) is DSL source that rebuilds an equal schema."""
import datetime
import uuid

import d42
from d42.representation import Representor, represent

from .. import alike, common as C, scale, spec as sp, values
from ..spec import Spec

CASES = {"quick": 35000, "thorough": 900000}
EVALUATIONS = "round_trips"
MIN = {"round_trips": 36000, "verdicts": 200000, "texts_parsed": 20000, "nested": 4000}
RULE = ("one evaluation = one printed form (repr / represent / Representor(indent=k)) that was "
        "evaluated back with only schema, optional, UUID, datetime and builtins in scope; the "
        "rebuilt schema must be == in both directions, print the same, give the same verdicts on "
        "probe values as the original and as the reference model, and the text, re-read by a "
        "recording `schema` stand-in, must declare exactly the constraints, keys, optionality "
        "flags, ellipsis markers and nesting of the model; distinct_nontrivial counts distinct "
        "texts of constrained or nested schemas")
ASSUMPTIONS = ["keys and values whose own repr is not an expression over the four names "
               "(enum members, Decimal) are not generated; results of % are not generated "
               "(a declaration through the DSL only)"]


class Recorder:
    """Stands in for `schema` when a printed form is evaluated: builds a model spec."""

    def __getattr__(self, name):
        if name in sp.SCALARS or name in ("list", "dict", "any"):
            return Rec(Spec(name))
        raise AttributeError(name)


class Rec:
    def __init__(self, s):
        self.s = s

    def _set(self, **kw):
        for k in kw:
            if self.s.has(k):
                raise TypeError("%s stated twice" % k)
        return Rec(self.s.with_(**kw))

    def __call__(self, *args):
        k = self.s.kind
        if k == "any":
            return self._set(alts=[a.s for a in args])
        arg, = args
        if k == "list":
            if isinstance(arg, Rec):
                return self._set(elem=arg.s)
            head = tail = False
            items = list(arg)
            if items and items[0] is Ellipsis:
                head = True
                items.pop(0)
            if items and items[-1] is Ellipsis:
                tail = True
                items.pop()
            return self._set(elems=[x.s for x in items], **dict(
                ([("head", True)] if head else []) + ([("tail", True)] if tail else [])))
        if k == "dict":
            keys, relaxed = [], False
            for key, sub in arg.items():
                if key is Ellipsis:
                    if sub is not Ellipsis:
                        raise TypeError("...: %r" % (sub,))
                    relaxed = True
                elif isinstance(key, RecOptional):
                    keys.append((key.key, sub.s, True))
                else:
                    keys.append((key, sub.s, False))
            return self._set(keys=keys, **({"relaxed": True} if relaxed else {}))
        return self._set(value=arg)

    def min(self, v):
        return self._set(min=v)

    def max(self, v):
        return self._set(max=v)

    def precision(self, v):
        return self._set(precision=v)

    def alphabet(self, v):
        return self._set(alphabet=v)

    def contains(self, v):
        return self._set(substr=v)

    def regex(self, v):
        return self._set(pattern=v)

    def len(self, a, b=None):
        if b is None:
            return self._set(len=a)
        out = {}
        if a is not Ellipsis:
            out["min_len"] = a
        if b is not Ellipsis:
            out["max_len"] = b
        return self._set(**out)


class RecOptional:
    def __init__(self, key):
        self.key = key


def flat(alts):
    out = []
    for x in alts:
        out += flat(x.a["alts"]) if x.kind == "any" and x.has("alts") else [x]
    return out


def canon(s):
    """A comparable form of what a normalised spec declares."""
    k = s.kind
    if k == "any":
        return ("any",) if not s.has("alts") else ("any", [canon(x) for x in flat(s.a["alts"])])
    a = {}
    for n in ("value", "min", "max", "precision", "substr", "pattern"):
        if s.has(n):
            a[n] = tagged(s.a[n])
    if s.has("alphabet"):
        a["alphabet"] = s.a["alphabet"]
    lo, hi = s.get("min_len"), s.get("max_len")
    if s.has("len"):
        lo = hi = s.a["len"]
    a["len"] = (lo, hi)
    if s.has("elem"):
        a["elem"] = canon(s.a["elem"])
    if s.has("elems"):
        head, tail = bool(s.get("head")), bool(s.get("tail"))
        if not s.a["elems"]:
            head, tail = head or tail, False
        a["elems"] = ([canon(x) for x in s.a["elems"]], head, tail)
    if s.has("keys"):
        a["keys"] = {key: (canon(x), bool(o)) for key, x, o in s.a["keys"]}
        a["relaxed"] = bool(s.get("relaxed"))
    return (k, a)


def tagged(v):
    """bool/int and -0.0/0.0 stay apart, nan equals nan."""
    if isinstance(v, float):
        return ("float", repr(v))
    if type(v) in (Count, Label):
        # what is printed is the value, not the class
        v = type(v).__base__(v)
    return (type(v).__name__, v)


def diff(a, b, path="schema"):
    if type(a) is not type(b):
        return "%s: %s became %s" % (path, sp.vrepr(a), sp.vrepr(b))
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s: %s was lost" % (path, sp.vrepr(k))
            d = diff(a[k], b[k], "%s.%s" % (path, sp.vrepr(k, 60)))
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s: %s was added" % (path, sp.vrepr(k))
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %s became %s" % (path, sp.vrepr(a), sp.vrepr(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path if isinstance(a, tuple) else "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a == b:
        return None
    return "%s: %s became %s" % (path, sp.vrepr(a), sp.vrepr(b))


def scope(schema, optional):
    return {"schema": schema, "optional": optional, "UUID": uuid.UUID, "datetime": datetime}


def texts(rng, b):
    out = [("repr", repr, None), ("represent", represent, None)]
    k = rng.pick([0, 1, 2, 3, 8, 4])
    out.append(("Representor(indent=%d)" % k,
                lambda x: x.__accept__(Representor(indent=k)), k))
    return out


def case(m, rng, idx):
    g = C.gen(rng, alias=False, nan=rng.chance(0.1), big=rng.chance(0.1),
              max_width=rng.pick([4, 6, 9]))
    s = g.rich(rng.pick([1, 2, 3, 4, 5])) if rng.chance(.75) else g.scalar()
    round_trip(m, rng, s)


def round_trip(m, rng, s, probe=True):
    n = sp.norm(s)
    b = m.build(s, C.env())
    w = dict(schema=sp.describe(s))
    m.sample(sp.describe(s))
    if sp.depth_of(n) >= 2:
        m.count("nested")
    probes = None
    first = None
    for name, fn, k in texts(rng, b):
        text = m.call(name, fn, b, witness=w)
        ww = dict(w, text=text, via=name)
        if type(text) is not str:
            m.fail("%s returned %s" % (name, type(text).__name__), **ww)
        if m.call(name, fn, b, witness=w) != text:
            m.fail("the printed form changes from one call to the next", **ww)
        if k is None or k == 4:
            if first is None:
                first = text
                m.distinct(text)
            elif text != first:
                m.fail("repr() and represent() print different forms", first=first, **ww)
        try:
            r = eval(text, scope(d42.schema, d42.optional))
        except Exception as e:
            m.fail("the printed form does not evaluate: %s: %s" % (type(e).__name__, e), **ww)
        m.count("round_trips")
        if not (r == b) or not (b == r) or r != b or b != r:
            m.fail("the evaluated printed form is not equal to the schema",
                   rebuilt=C.d42_repr(r), **ww)
        again = m.call(name, fn, r, witness=ww)
        if again != text:
            m.fail("the rebuilt schema prints differently", again=again, **ww)
        # what the text says, read independently of d42
        try:
            rec = eval(text, scope(Recorder(), RecOptional))
            said = canon(rec.s)
        except Exception as e:
            m.fail("the printed form is not a declaration: %s: %s" % (type(e).__name__, e), **ww)
        m.count("texts_parsed")
        d = diff(canon(n), said)
        if d:
            m.fail("the printed form lost or altered something: %s" % d, **ww)
        if not probe or not sp.sat(n):
            continue
        if probes is None:
            probes = C.probe_values(n, rng, 6)
        for v in probes:
            m.count("verdicts")
            x = C.verdict(m, b, v, **ww)
            if C.verdict(m, r, v, **ww) != x:
                m.fail("the rebuilt schema gives another verdict", value=v, original=x, **ww)
            if sp.conforms(n, v) != x:
                m.fail("the verdict differs from what was declared", value=v, verdict=x, **ww)


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes."""
    for s, _vals in scale.all_of(rng, text=20000, members=1100, deep=8):
        m.count("scale_schemas")
        round_trip(m, rng, s)


def d_letters(m, rng):
    """Every letter below U+0180 and some beyond, raw and spelled as an escape sequence, in every
    place that takes text."""
    import re
    for o in [*range(0x180), 0x300, 0x200b, 0x2028, 0x2029, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffd,
              0xffff, 0x10000, 0x1f600, 0x10ffff]:
        c = chr(o)
        for t in {c, repr(c)[1:-1], ascii(c)[1:-1], "\\x%02x" % (o & 255), "\\%o" % o, c + "'",
                  "'" + c + '"', "\\" + c, c * 2, "a%sb" % c}:
            m.count("letters")
            keys = [(t, Spec("int"), False), ((t, 1), Spec("any"), True)]
            specs = [Spec("str", value=t), Spec("str", alphabet=t), Spec("str", substr=t),
                     Spec("dict", keys=keys), Spec("bytes", value=t.encode("utf8", "surrogatepass"))]
            try:
                re.compile(t)
            except (re.error, OverflowError):
                pass
            else:
                specs.append(Spec("str", pattern=t, node=None))
            round_trip(m, rng, rng.pick(specs) if rng.chance(.5) else
                       Spec("list", elems=[rng.pick(specs), rng.pick(specs)]), probe=False)


class Count(int):
    """A subclass that prints like its base."""


class Label(str):
    pass


def d_odd_values(m, rng):
    """Fixed values, bounds and keys of subclasses and beyond the limit of int conversion; long
    text made of letters that need escaping."""
    big = values.BIG
    for v in (big, -big, big + 1, Count(big), Count(-big), Count(5), True, False, -0, 10 ** 4299,
              10 ** 4300, 2 ** 64):
        for s in (Spec("int", value=v), Spec("int", min=v), Spec("int", max=v),
                  Spec("int", min=v, max=v), Spec("list", elems=[Spec("int", value=v)]),
                  Spec("dict", keys=[(v, Spec("int", value=v), rng.chance(.5))])):
            m.count("odd_values")
            round_trip(m, rng, s, probe=False)
    letters = "\t\n\r\\'\"\x00\x7f\x85\u2028\u00e9\u0436\U0001f600 ab{}%#$"
    for k in (5, 50, 77, 78, 79, 80, 100, 199, 200, 201, 256, 300, 500, 1000, 4097):
        for _ in range(4):
            t = "".join(rng.pick(letters) for _ in range(k))
            u = rng.pick(["\t", "\n", "\\", "'", '"', "\\n", "'\""])
            t = rng.pick([t, u * k, "a" * k + u, u + "a" * k, "a" * (k // 2) + u + "b" * (k // 2)])
            for s in (Spec("str", value=t), Spec("str", value=Label(t)), Spec("str", alphabet=t),
                      Spec("str", substr=t), Spec("bytes", value=t.encode()),
                      Spec("dict", keys=[(t, Spec("str", value=t), rng.chance(.5))])):
                m.count("long_texts")
                round_trip(m, rng, s, probe=False)


def d_alike(m, rng):
    """Declarations that look alike, printed one after another."""
    for _, s in alike.families(m, rng, 60):
        if not any(x.kind == "alias" for _, x in sp.nodes(s)):
            round_trip(m, rng, s)


DIRECTED = [d_odd_values] + [d_letters] * 4 + [d_scale] * 20 + [d_alike] * 6
