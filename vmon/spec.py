"""Reference model of schemas: build through the public DSL, decide conformance independently.

A `Spec` never looks at `schema.props`; `conforms` is a statement of what a schema means.
"""
import datetime as dt
import math
import re
import string
import uuid

from . import regexgen

ELL = ...
MISSING = object()


class Spec:
    __slots__ = ("kind", "a")

    def __init__(self, kind, **a):
        self.kind = kind
        self.a = a

    def get(self, name, default=None):
        return self.a.get(name, default)

    def with_(self, **kw):
        a = dict(self.a)
        a.update(kw)
        return Spec(self.kind, **{k: v for k, v in a.items() if v is not MISSING})

    def has(self, name):
        return name in self.a

    def __repr__(self):
        return describe(self)


SCALARS = ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date")


# ---------------------------------------------------------------- textual form (own renderer)

def vrepr(v, limit=400):
    try:
        r = repr(v)
    except Exception:
        r = "<unprintable %s>" % type(v).__name__
    return r if len(r) <= limit else r[:limit] + "...(%d chars)" % len(r)


def _len_text(s):
    if s.has("len"):
        return ".len(%s)" % vrepr(s.a["len"])
    if s.has("min_len") and s.has("max_len"):
        return ".len(%s, %s)" % (vrepr(s.a["min_len"]), vrepr(s.a["max_len"]))
    if s.has("min_len"):
        return ".len(%s, ...)" % vrepr(s.a["min_len"])
    if s.has("max_len"):
        return ".len(..., %s)" % vrepr(s.a["max_len"])
    return ""


def _names_text(names):
    if isinstance(names, set):          # independent of hash randomisation
        return "{%s}" % ", ".join(sorted(map(vrepr, names)))
    return vrepr(names)


def describe(s):
    k = s.kind
    if k in SCALARS:
        r = "schema." + k
        if s.has("value"):
            r += "(%s)" % vrepr(s.a["value"])
        for name in ("min", "max", "precision", "alphabet"):
            if s.has(name):
                r += ".%s(%s)" % (name, vrepr(s.a[name]))
        if s.has("substr"):
            r += ".contains(%s)" % vrepr(s.a["substr"])
        if s.has("pattern"):
            r += ".regex(%s)" % vrepr(s.a["pattern"])
        return r + _len_text(s)
    if k == "list":
        if s.has("elem"):
            r = "(%s)" % describe(s.a["elem"])
        elif s.has("elems"):
            parts = [describe(x) for x in s.a["elems"]]
            if s.get("head"):
                parts.insert(0, "...")
            if s.get("tail"):
                parts.append("...")
            r = "([%s])" % ", ".join(parts)
        else:
            r = ""
        return "schema.list" + r + _len_text(s)
    if k == "dict":
        if not s.has("keys"):
            return "schema.dict"
        parts = []
        for key, sub, opt in s.a["keys"]:
            kr = vrepr(key)
            parts.append("%s: %s" % ("optional(%s)" % kr if opt else kr, describe(sub)))
        if s.get("relaxed"):
            parts.insert(min(s.get("relaxed_at", len(parts)), len(parts)), "...: ...")
        return "schema.dict({%s})" % ", ".join(parts)
    if k == "any":
        if not s.has("alts"):
            return "schema.any"
        return "schema.any(%s)" % ", ".join(map(describe, s.a["alts"]))
    if k == "or":
        return "(%s | %s)" % (describe(s.a["left"]), describe(s.a["right"]))
    if k == "add":
        return "(%s + %s)" % (describe(s.a["left"]), describe(s.a["right"]))
    if k == "req":
        return "make_required(%s%s)" % (describe(s.a["base"]),
                                        "" if s.a["names"] is None else
                                        ", " + _names_text(s.a["names"]))
    if k == "alias":
        return "schema.alias(%r, %s)" % (s.a["name"], describe(s.a["target"]))
    if k == "custom":
        return "Custom<%s>" % describe(s.a["target"])
    raise AssertionError(k)


# ---------------------------------------------------------------- building via the public DSL

class Env:
    """d42 names needed for building; `custom` makes a forwarding custom type."""

    def __init__(self):
        import d42
        from d42.utils import make_required
        self.schema = d42.schema
        self.optional = d42.optional
        self.make_required = make_required
        self.custom = None


def _apply_len(sch, s):
    if s.has("len"):
        return sch.len(s.a["len"])
    if s.has("min_len") and s.has("max_len"):
        return sch.len(s.a["min_len"], s.a["max_len"])
    if s.has("min_len"):
        return sch.len(s.a["min_len"], ELL)
    if s.has("max_len"):
        return sch.len(ELL, s.a["max_len"])
    return sch


def build_shared(s, env):
    """Like build, with one schema object for all parts that read the same."""
    memo = {}

    def shared(x):
        text = describe(x)
        if len(text) > 300 or "<" in text or "nan" in text:
            return _build(x, env, shared)
        if text not in memo:
            memo[text] = _build(x, env, shared)
        return memo[text]
    return shared(s)


def build(s, env):
    return _build(s, env, lambda x: build(x, env))


def _build(s, env, build):
    S = env.schema
    k = s.kind
    if k in SCALARS:
        sch = getattr(S, k)
        if s.has("value"):
            sch = sch(s.a["value"])
        if s.has("min"):
            sch = sch.min(s.a["min"])
        if s.has("max"):
            sch = sch.max(s.a["max"])
        if s.has("precision"):
            sch = sch.precision(s.a["precision"])
        if s.has("alphabet"):
            sch = sch.alphabet(s.a["alphabet"])
        if s.has("substr"):
            sch = sch.contains(s.a["substr"])
        if s.has("pattern"):
            sch = sch.regex(s.a["pattern"])
        return _apply_len(sch, s) if k == "str" else sch
    if k == "list":
        sch = S.list
        if s.has("elem"):
            sch = sch(build(s.a["elem"]))
        elif s.has("elems"):
            items = [build(x) for x in s.a["elems"]]
            if s.get("head"):
                items.insert(0, ELL)
            if s.get("tail"):
                items.append(ELL)
            sch = sch(items)
        return _apply_len(sch, s)
    if k == "dict":
        if not s.has("keys"):
            return S.dict
        d = {}
        n = 0
        at = s.get("relaxed_at", len(s.a["keys"])) if s.get("relaxed") else None
        for key, sub, opt in s.a["keys"]:
            if at is not None and n == at:
                d[ELL] = ELL
            d[env.optional(key) if opt else key] = build(sub)
            n += 1
        if at is not None and ELL not in d:
            d[ELL] = ELL
        return S.dict(d)
    if k == "any":
        return S.any(*[build(x) for x in s.a["alts"]]) if s.has("alts") else S.any
    if k == "or":
        return build(s.a["left"]) | build(s.a["right"])
    if k == "add":
        return build(s.a["left"]) + build(s.a["right"])
    if k == "req":
        base = build(s.a["base"])
        names = s.a["names"]
        return env.make_required(base) if names is None else env.make_required(base, names)
    if k == "alias":
        return S.alias(s.a["name"], build(s.a["target"]))
    if k == "custom":
        return env.custom(build(s.a["target"]))
    raise AssertionError(k)


# ---------------------------------------------------------------- combinators normalised away

def norm(s):
    """Meaning-preserving normal form (the model of `|`, `+`, make_required, alias, custom)."""
    k = s.kind
    if k in SCALARS:
        return s
    if k == "list":
        if s.has("elem"):
            return s.with_(elem=norm(s.a["elem"]))
        if s.has("elems"):
            return s.with_(elems=[norm(x) for x in s.a["elems"]])
        return s
    if k == "dict":
        if s.has("keys"):
            return s.with_(keys=[(key, norm(x), o) for key, x, o in s.a["keys"]])
        return s
    if k == "any":
        return s.with_(alts=[norm(x) for x in s.a["alts"]]) if s.has("alts") else s
    if k == "or":
        return Spec("any", alts=[norm(s.a["left"]), norm(s.a["right"])])
    if k in ("alias", "custom"):
        return norm(s.a["target"])
    if k == "add":
        a, b = norm(s.a["left"]), norm(s.a["right"])
        table = {}
        for x in (a, b):
            for key, sub, opt in x.a.get("keys", []):
                table[key] = (key, sub, opt)
        return Spec("dict", keys=list(table.values()),
                    relaxed=bool(a.get("relaxed") or b.get("relaxed")))
    if k == "req":
        b = norm(s.a["base"])
        if not b.has("keys"):
            return b
        names = s.a["names"]
        return b.with_(keys=[(key, sub, False if (names is None or key in names) else opt)
                             for key, sub, opt in b.a["keys"]])
    raise AssertionError(k)


# ---------------------------------------------------------------- meaning

def float_eq(v, expected, precision):
    if v != v or expected != expected:
        return v != v and expected != expected
    if v == expected:
        return True
    if precision is None:
        return math.isclose(v, expected, rel_tol=1e-9, abs_tol=0.0)
    scale = 10 ** precision
    a, b = v * scale, expected * scale
    if math.isinf(a) or math.isinf(b):
        return False
    return round(a) == round(b)


def len_ok(s, n):
    if s.has("len") and n != s.a["len"]:
        return False
    if s.has("min_len") and n < s.a["min_len"]:
        return False
    if s.has("max_len") and n > s.a["max_len"]:
        return False
    return True


def windows(s, n):
    """Start indices at which the declared elements may sit in a list of length n."""
    k = len(s.a["elems"])
    if n < k:
        return []
    if s.get("head") and s.get("tail"):
        return list(range(0, n - k + 1))
    if s.get("tail"):
        return [0]
    if s.get("head"):
        return [n - k]
    return [0] if n == k else []


PY_TYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str,
            "bytes": bytes, "uuid4": uuid.UUID, "datetime": dt.datetime, "date": dt.date,
            "list": list, "dict": dict}


def conforms(s, v):
    """`s` must be normalised."""
    k = s.kind
    if k == "any":
        return (not s.has("alts")) or any(conforms(x, v) for x in s.a["alts"])
    if not isinstance(v, PY_TYPES[k]):
        return False
    if k == "none":
        return True
    if k == "uuid4" and v.version != 4:
        return False
    if k in ("bool", "int", "bytes", "uuid4", "datetime", "date", "str") and s.has("value"):
        if not (v == s.a["value"]):
            return False
    if k == "int":
        return not ((s.has("min") and v < s.a["min"]) or (s.has("max") and v > s.a["max"]))
    if k == "float":
        if s.has("value") and not float_eq(v, s.a["value"], s.get("precision")):
            return False
        if s.has("min") and not (v >= s.a["min"]):
            return False
        if s.has("max") and not (v <= s.a["max"]):
            return False
        return True
    if k == "str":
        if s.has("pattern") and re.search(s.a["pattern"], v) is None:
            return False
        if not len_ok(s, len(v)):
            return False
        if s.has("substr") and s.a["substr"] not in v:
            return False
        if s.has("alphabet"):
            letters = set(s.a["alphabet"])
            if any(c not in letters for c in v):
                return False
        return True
    if k == "list":
        if not len_ok(s, len(v)):
            return False
        if s.has("elem"):
            return all(conforms(s.a["elem"], x) for x in v)
        if s.has("elems"):
            es = s.a["elems"]
            return any(all(conforms(e, v[w + i]) for i, e in enumerate(es))
                       for w in windows(s, len(v)))
        return True
    if k == "dict":
        if not s.has("keys"):
            return True
        declared = set()
        for key, sub, opt in s.a["keys"]:
            declared.add(key)
            if key in v:
                if not conforms(sub, v[key]):
                    return False
            elif not opt:
                return False
        if not s.get("relaxed"):
            for key in v:
                if key not in declared:
                    return False
        return True
    return True


# ---------------------------------------------------------------- satisfiability (conservative)

INF = 10 ** 9


def len_range(s, lo=0, hi=INF):
    if s.has("len"):
        return max(lo, s.a["len"]), min(hi, s.a["len"])
    return max(lo, s.get("min_len", lo)), min(hi, s.get("max_len", hi))


def sat(s):
    """True only if some value conforms; every alternative / element schema must be satisfiable
    too (a generator may have to enter any of them)."""
    k = s.kind
    if k in ("none", "bytes", "uuid4", "datetime", "date", "bool"):
        return True
    if k in ("int", "float"):
        if k == "float" and any(s.has(n) and s.a[n] != s.a[n] for n in ("min", "max")):
            return False
        if s.has("value"):
            return conforms(s, s.a["value"])
        return not (s.has("min") and s.has("max") and s.a["min"] > s.a["max"])
    if k == "str":
        if s.has("value"):
            return conforms(s, s.a["value"])
        if s.has("pattern"):
            return True
        sub = s.get("substr", "")
        lo, hi = len_range(s, len(sub))
        if lo > hi:
            return False
        if s.has("alphabet"):
            if any(c not in s.a["alphabet"] for c in sub):
                return False
            if s.a["alphabet"] == "" and lo > 0:
                return False
        return True
    if k == "list":
        if s.has("elem"):
            lo, hi = len_range(s)
            return lo <= hi and sat(s.a["elem"])
        if s.has("elems"):
            n = len(s.a["elems"])
            lo, hi = len_range(s, n, INF if (s.get("head") or s.get("tail")) else n)
            return lo <= hi and all(sat(x) for x in s.a["elems"])
        lo, hi = len_range(s)
        return lo <= hi
    if k == "dict":
        return all(sat(x) for _, x, _ in s.get("keys", []))
    if k == "any":
        return all(sat(x) for x in s.get("alts", []))
    raise AssertionError(k)


# ---------------------------------------------------------------- sampling conforming values

TEXT_POOL = string.ascii_letters + string.digits + " -_\n\t'\"\\éЖ中😀"


def sample(s, rng, depth=3, plain=True):
    """A value conforming to the normalised satisfiable spec `s` (biased to boundaries)."""
    from . import values
    k = s.kind
    if k == "none":
        return None
    if s.has("value") and k in SCALARS:
        return s.a["value"]
    if k == "bool":
        return rng.chance(0.5)
    if k == "int":
        lo = s.get("min")
        hi = s.get("max")
        if lo is None and hi is None:
            return rng.pick(values.INTS)
        if lo is None:
            return hi - rng.pick([0, 0, 1, 2, 10, 2 ** 70])
        if hi is None:
            return lo + rng.pick([0, 0, 1, 2, 10, 2 ** 70])
        return int(rng.pick([lo, hi, lo + (hi - lo) // 2, lo + rng._randbelow(hi - lo + 1)]))
    if k == "float":
        lo, hi = s.get("min"), s.get("max")
        cand = [x for x in (lo, hi) if x is not None] * 2
        if lo is not None and hi is not None and math.isfinite(hi - lo):
            cand.append(lo + (hi - lo) * rng.random())
        if lo is not None:
            cand += [math.nextafter(lo, math.inf), lo + abs(lo) + 1.0]
        if hi is not None:
            cand += [math.nextafter(hi, -math.inf), hi - abs(hi) - 1.0]
        if not cand:
            cand = values.FLOATS
        cand = [x for x in cand if conforms(s, x)]
        return rng.pick(cand)
    if k == "str":
        if s.has("pattern"):
            node = s.get("node")
            if node is None:
                return s.get("witness", "a")
            inner = regexgen.sample(node, rng)
            return inner
        sub = s.get("substr", "")
        lo, hi = len_range(s, len(sub))
        n = rng.pick([lo, lo, min(hi, lo + 1), min(hi, lo + rng._randbelow(6)),
                      hi if hi <= lo + 40 else lo + 3])
        alphabet = s.get("alphabet", TEXT_POOL)
        if alphabet == "":
            return sub
        rest = [rng.pick(alphabet) for _ in range(n - len(sub))]
        at = rng._randbelow(len(rest) + 1)
        return "".join(rest[:at]) + sub + "".join(rest[at:])
    if k == "bytes":
        return rng.pick([b"", b"\x00", b"abc", b"\xff\xfe", b"a'b"])
    if k == "uuid4":
        return values.uuid4(rng)
    if k == "datetime":
        return rng.pick(values.DATETIMES)
    if k == "date":
        return rng.pick(values.DATES)
    if k == "list":
        if s.has("elem"):
            lo, hi = len_range(s)
            n = rng.pick([lo, min(hi, lo + 1), min(hi, lo + rng._randbelow(4)),
                          hi if hi <= lo + 6 else lo + 2])
            return [sample(s.a["elem"], rng, depth - 1, plain) for _ in range(n)]
        if s.has("elems"):
            core = [sample(x, rng, depth - 1, plain) for x in s.a["elems"]]
            k_ = len(core)
            open_ = s.get("head") or s.get("tail")
            lo, hi = len_range(s, k_, INF if open_ else k_)
            n = rng.pick([lo, min(hi, lo + 1), min(hi, lo + rng._randbelow(4)),
                          hi if hi <= lo + 6 else lo + 1])
            extra = [values.plain_value(rng, min(depth, 1)) for _ in range(n - k_)]
            if extra and s.a["elems"] and rng.chance(0.3):
                # decoys that look like declared elements
                extra[rng._randbelow(len(extra))] = sample(rng.pick(s.a["elems"]), rng, depth - 1)
            if s.get("head") and s.get("tail"):
                at = rng.pick([0, len(extra), rng._randbelow(len(extra) + 1)])
                return extra[:at] + core + extra[at:]
            return core + extra if s.get("tail") else extra + core
        lo, hi = len_range(s)
        n = rng.pick([lo, min(hi, lo + rng._randbelow(4))])
        return [values.plain_value(rng, min(depth, 1)) for _ in range(n)]
    if k == "dict":
        if not s.has("keys"):
            return {key: values.plain_value(rng, min(depth, 1))
                    for key in rng.pick([[], ["a"], ["x", "y"], [1, None]])}
        mode = rng.pick(["all", "req", "mix"])
        out = {}
        items = list(s.a["keys"])
        if rng.chance(0.3):
            rng.shuffle(items)
        for key, sub, opt in items:
            if opt and (mode == "req" or (mode == "mix" and rng.chance(0.5))):
                continue
            out[key] = sample(sub, rng, depth - 1, plain)
        if s.get("relaxed") and rng.chance(0.6):
            declared = {key for key, _, _ in s.a["keys"]}
            for key in rng.pick([["zz"], ["zz", 77], ["a", "b", "c"], [None], [("t", 1)]]):
                if key not in declared:
                    out[key] = values.plain_value(rng, min(depth, 1))
        return out
    if k == "any":
        if not s.has("alts"):
            return values.plain_value(rng, min(depth, 2))
        return sample(rng.pick(s.a["alts"]), rng, depth, plain)
    raise AssertionError(k)


# ---------------------------------------------------------------- structure walks

def sub_positions(s, v, path=()):
    """All (path, normalised sub-spec, sub-value) pairs of a value against a spec; only descends
    into containers of the right type.  `any` contributes every alternative."""
    out = [(path, s, v)]
    if s.kind == "any":
        for x in s.get("alts", []):
            out += sub_positions(x, v, path)
    elif s.kind == "list" and isinstance(v, list):
        if s.has("elem"):
            for i, x in enumerate(v):
                out += sub_positions(s.a["elem"], x, path + (i,))
        elif s.has("elems"):
            ws = windows(s, len(v)) or [0]
            for w in ws[:3]:
                for i, e in enumerate(s.a["elems"]):
                    if w + i < len(v):
                        out += sub_positions(e, v[w + i], path + (w + i,))
    elif s.kind == "dict" and isinstance(v, dict):
        for key, sub, _ in s.get("keys", []):
            if key in v:
                out += sub_positions(sub, v[key], path + (key,))
    return out


def specs_at(s, path, v):
    """Candidate (spec, value) pairs at `path`, following the value; [] if unreachable."""
    cur = [(s, v)]
    for step in path:
        nxt = []
        for sp, val in cur:
            for x in expand_any(sp):
                if x.kind == "list" and isinstance(val, list) and isinstance(step, int):
                    if not (0 <= step < len(val)):
                        continue
                    if x.has("elem"):
                        nxt.append((x.a["elem"], val[step]))
                    elif x.has("elems"):
                        n, k = len(val), len(x.a["elems"])
                        if x.get("head") and x.get("tail"):
                            idx = range(k)
                        elif x.get("head"):
                            idx = [step - max(0, n - k)]
                        else:
                            idx = [step]
                        for i in idx:
                            if 0 <= i < k:
                                nxt.append((x.a["elems"][i], val[step]))
                elif x.kind == "dict" and isinstance(val, dict) and step in val:
                    for key, sub, _ in x.get("keys", []):
                        if key == step:
                            nxt.append((sub, val[step]))
        cur = nxt
    return cur


def expand_any(s):
    if s.kind == "any" and s.has("alts"):
        out = []
        for x in s.a["alts"]:
            out += expand_any(x)
        return out
    return [s]


def get_at(v, path):
    for step in path:
        v = v[step]
    return v


def set_at(v, path, new):
    """A copy of `v` (containers along the path copied) with the sub-value replaced."""
    if not path:
        return new
    step = path[0]
    if isinstance(v, dict):
        c = dict(v)
        c[step] = set_at(v[step], path[1:], new)
        return c
    c = list(v)
    c[step] = set_at(v[step], path[1:], new)
    return c


def depth_of(s):
    k = s.kind
    if k in SCALARS:
        return 0
    subs = children(s)
    return 1 + max([depth_of(x) for x in subs], default=0)


def children(s):
    k = s.kind
    if k == "list":
        return [s.a["elem"]] if s.has("elem") else list(s.get("elems", []))
    if k == "dict":
        return [x for _, x, _ in s.get("keys", [])]
    if k == "any":
        return list(s.get("alts", []))
    if k in ("or", "add"):
        return [s.a["left"], s.a["right"]]
    if k == "req":
        return [s.a["base"]]
    if k in ("alias", "custom"):
        return [s.a["target"]]
    return []


def kinds_of(s, acc=None):
    acc = set() if acc is None else acc
    acc.add(shape(s))
    for x in children(s):
        kinds_of(x, acc)
    return acc


def shape(s):
    k = s.kind
    names = sorted(n for n in s.a if n not in ("keys", "elems", "elem", "alts", "left", "right",
                                               "base", "target", "name", "node", "relaxed_at",
                                               "witness", "names"))
    if k == "list":
        if s.has("elem"):
            k = "list:typed"
        elif s.has("elems"):
            k = "list:elems"
    if k == "dict":
        if not s.has("keys"):
            k = "dict:untyped"
        elif any(o for _, _, o in s.a["keys"]):
            k = "dict:optional"
        names = [n for n in names if s.a[n]]
    if k == "any" and not s.has("alts"):
        k = "any:untyped"
    return k + ("+" + ",".join(names) if names else "")


def plain_key(key):
    return not isinstance(key, float) or key == key


# ---------------------------------------------------------------- the declaration as a tree

def nodes(s, path=()):
    yield path, s
    if s.kind == "list" and s.has("elem"):
        yield from nodes(s.a["elem"], path + (("elem", None),))
    elif s.kind == "list":
        for i, x in enumerate(s.get("elems", [])):
            yield from nodes(x, path + (("elems", i),))
    elif s.kind == "dict":
        for i, (_, x, _) in enumerate(s.get("keys", [])):
            yield from nodes(x, path + (("keys", i),))
    elif s.kind == "any":
        for i, x in enumerate(s.get("alts", [])):
            yield from nodes(x, path + (("alts", i),))
    elif s.kind in ("or", "add"):
        yield from nodes(s.a["left"], path + (("left", None),))
        yield from nodes(s.a["right"], path + (("right", None),))
    elif s.kind == "req":
        yield from nodes(s.a["base"], path + (("base", None),))
    elif s.kind in ("alias", "custom"):
        yield from nodes(s.a["target"], path + (("target", None),))


def put(s, path, new):
    if not path:
        return new
    (name, i), rest = path[0], path[1:]
    if i is None:
        return s.with_(**{name: put(s.a[name], rest, new)})
    items = list(s.a[name])
    if name == "keys":
        k, x, o = items[i]
        items[i] = (k, put(x, rest, new), o)
    else:
        items[i] = put(items[i], rest, new)
    return s.with_(**{name: items})
