"""Refinement calls: argument generators and their meaning on the model."""
import math
import re

from niltype import Nil

from . import spec as sp, values
from .spec import Spec

METHODS = {
    "none": [], "bool": ["call"], "int": ["call", "min", "max"],
    "float": ["call", "min", "max", "precision"],
    "str": ["call", "len", "alphabet", "contains", "regex"], "bytes": ["call"],
    "uuid4": ["call"], "datetime": ["call"], "date": ["call"],
    "list": ["call", "len"], "dict": ["call"], "any": ["call"],
}
VALUE_TYPE = sp.PY_TYPES
REGEXES = ["a", ".*", "^$", "^", "", "[a-z]+", "\\d", "^a", "c$", "(", "[", "*", "a{2,1}", "(?P<n>a)",
           "\\", "(?P<1>a)", "[z-a]", "a**", "(?<=a+)b", "a{99999999999}", "b+", "x{2}", "[^a]",
           "(?:ab|c)*", "\\Z", "(?i)A", "\\p{L}", "(" * 5000 + ")" * 5000, "(?:a" * 3000, "a|" * 3000,
           "(?=" * 4000 + "a" + ")" * 4000, "[" * 3000, "a{%s}" % ("9" * 5000), "(?P<%s>a)" % ("n" * 5000)]


def bad_arg(rng):
    r = rng.random()
    if r < 0.2:
        return rng.pick([Ellipsis, Nil, None, True, False])
    if r < 0.5:
        return rng.pick([0, 1, -1, 1.5, float("nan"), "a", b"a", [], {}, (), [1], {"a": 1},
                         float("inf"), -10 ** 400, values.BIG, -values.BIG])
    if r < 0.56:
        return rng.pick(values.PRICKLY)()
    return values.zoo(rng)


def call_text(name, args):
    return "%s(%s)" % ("" if name == "call" else "." + name, ", ".join(sp.vrepr(a, 200)
                                                                      for a in args))


class Args:
    """Draws arguments; sub-schemas come as (built, spec) through `sub`."""

    def __init__(self, rng, sub):
        self.rng, self.sub = rng, sub
        self.specs = {}          # id(built) -> spec, for the model

    def schema(self):
        b, s = self.sub()
        self.specs[id(b)] = (b, s)
        return b

    def spec_of(self, b):
        return self.specs[id(b)][1] if id(b) in self.specs and self.specs[id(b)][0] is b else None

    def draw(self, kind, name, s, wild=0.25):
        """s: the model of the receiver (or None)."""
        r = self.rng
        if r.chance(wild):
            if name == "len":
                return tuple(r.pick([bad_arg(r), Ellipsis, Nil, 1, 0, -1, True])
                             for _ in range(r.pick([1, 2, 2])))
            if kind == "list" and name == "call" and r.chance(0.5):
                items = [self.schema() if r.chance(.5) else bad_arg(r)
                         for _ in range(r._randbelow(4))]
                return (items,)
            if kind == "dict" and name == "call" and r.chance(0.5):
                return (self.bad_table(),)
            if kind == "any":
                return tuple(self.schema() if r.chance(.5) else bad_arg(r)
                             for _ in range(1 + r._randbelow(3)))
            return (bad_arg(r),)
        value = s.get("value") if s is not None else None
        if name == "call":
            return (self.value(kind, s),) if kind != "any" else \
                tuple(self.schema() for _ in range(1 + r._randbelow(3)))
        if name in ("min", "max"):
            if kind == "int":
                c = [0, 1, -1, 5, 10 ** 25, -2 ** 63, True]
                if isinstance(value, int):
                    c += [value, value - 1, value + 1] * 4
            else:
                c = [0.0, 1.0, -1.5, 1e300, float("inf"), float("-inf"), float("nan"), 5e-324]
                if isinstance(value, float):
                    c += [value, math.nextafter(value, math.inf),
                          math.nextafter(value, -math.inf), value + 1.0, value - 1.0,
                          value * (1 + 1e-10), value * (1 - 1e-10)] * 2
            return (r.pick(c),)
        if name == "precision":
            return (r.pick([1, 2, 3, 5, 14, 15, 0, -1, 16, 400, True]),)
        n = None
        if isinstance(value, str):
            n = len(value)
        if s is not None and s.has("elems"):
            n = len(s.a["elems"])
        if name == "len":
            c = [0, 1, 2, 3, -1, 10, 44] if n is None else [n, n, n - 1, n + 1, 0, n + 5, -1]
            if r.chance(.04):
                c = [values.BIG, -values.BIG]
            form = r._randbelow(4)
            if form == 0:
                return (r.pick(c),)
            if form == 1:
                return (r.pick(c), Ellipsis)
            if form == 2:
                return (Ellipsis, r.pick(c))
            return (r.pick(c), r.pick(c))
        if name == "alphabet":
            c = ["", "a", "ab", "abc", "abcn", "01"]
            if isinstance(value, str):
                c += [value, "".join(sorted(set(value))), value[1:], value[:-1], value + "z",
                      value.upper()]
            return (r.pick(c),)
        if name == "contains":
            c = ["", "a", "ab", "zz"]
            if isinstance(value, str):
                c += [value, value[1:], value[:2], value + "a", value[::-1], value.upper()]
            return (r.pick(c),)
        if name == "regex":
            return (r.pick(REGEXES),)
        raise AssertionError(name)

    def value(self, kind, s):
        r = self.rng
        if kind == "bool":
            return r.chance(.5)
        if kind == "int":
            v = r.pick(values.INTS + [True, values.BIG, values.IntSub(5)])
            for n in ("min", "max"):
                if s is not None and s.has(n) and r.chance(.5) and isinstance(s.a[n], int):
                    v = s.a[n] + r.pick([-1, 0, 1])
            return v
        if kind == "float":
            v = r.pick(values.FLOATS + [float("nan"), float("inf"), float("-inf")])
            for n in ("min", "max"):
                if s is not None and s.has(n) and r.chance(.5) and isinstance(s.a[n], float):
                    v = math.nextafter(s.a[n], r.pick([-math.inf, math.inf]))
            return v
        if kind == "str":
            return r.pick(["", "a", "ab", "abc", "banana", "Ab", "a\nb", "\n", "é", "aab",
                           values.StrSub("abc")])
        if kind == "bytes":
            return r.pick(values.BYTES + [values.BytesSub(b"x")])
        if kind == "uuid4":
            return r.pick(values.UUIDS + values.OTHER_UUIDS +
                          [values.UUIDSub(int=7, version=4)])
        if kind == "datetime":
            return r.pick(values.DATETIMES + [values.DateTimeSub(2020, 1, 1)])
        if kind == "date":
            return r.pick(values.DATES + [values.DateSub(2020, 1, 1), values.DATETIMES[0]])
        if kind == "list":
            if r.chance(0.3):
                return self.schema()
            items = [self.schema() for _ in range(r._randbelow(4))]
            if r.chance(.3):
                items.insert(0, Ellipsis)
            if r.chance(.3):
                items.append(Ellipsis)
            if r.chance(.1):
                items.insert(r._randbelow(len(items) + 1), Ellipsis)
            return items
        if kind == "dict":
            return self.table()
        raise AssertionError(kind)

    def table(self):
        import d42
        r = self.rng
        out = {}
        for _ in range(r._randbelow(4)):
            k = r.pick(values.KEYS)
            out[d42.optional(k) if r.chance(.3) else k] = self.schema()
        if r.chance(.3):
            out[Ellipsis] = Ellipsis
        return out

    def bad_table(self):
        import d42
        r = self.rng
        out = self.table()
        k = r.pick(["x", Ellipsis, d42.optional("x"), 1, None, (1,), values.Opaque(), Nil,
                    d42.optional(d42.optional("x")), values.BIG, frozenset()])
        v = r.pick([Ellipsis, Nil, None, 1, bad_arg(r), {}, [], "schema", self.schema()])
        out[k] = v
        return out


def apply_real(b, name, args):
    return b(*args) if name == "call" else getattr(b, name)(*args)


LEN_FORMS = ("len", "min_len", "max_len")


def declares(kind, name, args):
    """The properties a call declares, by its documented form; None if the form is not one."""
    if name == "call":
        return {"value"}
    if name == "len":
        if len(args) == 1 or args[1] is Nil:
            return {"len"} if args[0] is not Ellipsis else None
        if args[0] is Nil or (args[0] is Ellipsis and args[1] is Ellipsis):
            return None
        if args[0] is Ellipsis:
            return {"max_len"}
        if args[1] is Ellipsis:
            return {"min_len"}
        return {"min_len", "max_len"}
    return {name}


def apply_model(s, name, args, spec_of):
    """The spec after a successful call, or None when the call has no meaning in the model."""
    k = s.kind
    if name == "call":
        v = args[0] if args else None
        if k in sp.SCALARS:
            return s.with_(value=v) if isinstance(v, VALUE_TYPE[k]) else None
        if k == "any":
            subs = [spec_of(x) for x in args]
            return s.with_(alts=subs) if all(x is not None for x in subs) else None
        if k == "list":
            if isinstance(v, list):
                items = list(v)
                head = tail = False
                if items and items[0] is Ellipsis:
                    head = True
                    items.pop(0)
                if items and items[-1] is Ellipsis:
                    tail = True
                    items.pop()
                subs = [spec_of(x) for x in items]
                if any(x is None for x in subs):
                    return None
                kw = {"elems": subs}
                if head:
                    kw["head"] = True
                if tail:
                    kw["tail"] = True
                return s.with_(**kw)
            x = spec_of(v)
            return None if x is None else s.with_(elem=x)
        if k == "dict":
            if not isinstance(v, dict):
                return None
            import d42
            table, relaxed = {}, False
            for key, val in v.items():
                if key is Ellipsis:
                    relaxed = True
                    continue
                opt = isinstance(key, d42.optional)
                x = spec_of(val)
                if x is None:
                    return None
                real = key.key if opt else key
                table[real] = (real, x, opt)
            return s.with_(keys=list(table.values()), **({"relaxed": True} if relaxed else {}))
    if name == "len":
        d = declares(k, name, args)
        if d is None or not all(isinstance(a, int) for a in args
                                if a is not Ellipsis and a is not Nil):
            return None
        if d == {"len"}:
            return s.with_(len=args[0])
        kw = {}
        if "min_len" in d:
            kw["min_len"] = args[0]
        if "max_len" in d:
            kw["max_len"] = args[1]
        return s.with_(**kw)
    v = args[0]
    field = {"contains": "substr", "regex": "pattern"}.get(name, name)
    want = {"min": VALUE_TYPE.get(k), "max": VALUE_TYPE.get(k), "precision": int}.get(name, str)
    if not isinstance(v, want):
        return None
    if field == "pattern":
        try:
            re.compile(v)
        except (re.error, OverflowError, RecursionError):
            return None
    return s.with_(**{field: v})


def fixed_value(s):
    """The value that a (normalised) spec fixes, or MISSING."""
    if s.kind in sp.SCALARS:
        return s.a["value"] if s.has("value") else \
            (None if s.kind == "none" else sp.MISSING)
    if s.kind == "list" and s.has("elems") and not s.get("head") and not s.get("tail"):
        vs = [fixed_value(x) for x in s.a["elems"]]
        return sp.MISSING if any(v is sp.MISSING for v in vs) else vs
    if s.kind == "dict" and s.has("keys"):
        out = {}
        for key, x, opt in s.a["keys"]:
            if opt:
                continue
            v = fixed_value(x)
            if v is sp.MISSING:
                return v
            out[key] = v
        return out
    return sp.MISSING
