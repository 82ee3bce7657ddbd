"""Random satisfiable (or deliberately unconstrained) specs that the DSL accepts."""
import math
import sys

from . import regexgen, values
from .spec import Spec, sat, norm, conforms, len_range, INF

DEFAULT = dict(alias=True, combos=True, keys="all", nondet=True, pattern=True, custom=False,
               fixed=0.35, unsat=False, max_width=4, nan=False, big=False, keypool=None,
               exotic_float=True, want=None, scale=0.03)

SMALL_INTS = [0, 1, -1, 2, 3, 5, 10, -10, 100]
BOUND_INTS = SMALL_INTS + [2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 65, -2 ** 65,
                           10 ** 25, -10 ** 25, True]
BOUND_FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.15, 0.5, 0.95, 0.99, -0.15, 2.5, 3.14159, 10.0, -10.0,
                100.25, 1e-5, 1e-20, 1e10, 9.3e18, -9.3e18, 1e19, 1e30, -1e30, 1e300, -1e300,
                1.7e308, -1.7e308, sys.float_info.max, -sys.float_info.max, 5e-324,
                sys.float_info.min, float("inf"), float("-inf"), 2.0 ** 63, -2.0 ** 63,
                0.30000000000000004, 1234.5678, 0.29, 1.005]
ALPHABETS = ["", "a", "ab", "abc", "01", " ", "é中", "aA", "abcdefghij", "\n", "a-z", "]^-\\", "aab"]
TRICKY = ["\n\\", "\\\n'", "'\"", "'\"\n", "\\", "a\\", "\\'", "\\\"'", "\r\n", "\t'", "{}", "{0}",
          "%s%d", "'''", '"""', "\x00", "\x7f", "\ud800", "\u2028", "\x85", "\\n", "\\x41", "#",
          "# x", "\\N{DASH}", "{a}", "%(a)s", "$a", "\ufeff", "\u202e", "e\u0301", "\xdf", "\u0130",
          "\u01c5", "\U0001f600", ")", "schema.int", "a", "b"]
SIZES = [5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 31, 32, 33, 48, 50, 51, 64, 65, 99,
         100, 101, 127, 128, 129, 130]
LENGTHS = SIZES + [200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 3000]
SUBSTRS = ["", "a", "ab", "ba", "abc", "aba", "01", " ", "é", "a-z", "\n", "aaaa", "zzzzzzzzz"]
VALUES_STR = ["", "a", "ab", "abc", "banana", "01", " ", "é中", "it's", 'q"q', "a\nb", "a" * 33,
              "\\d", "x" * 5]


def tricky(r):
    """Text that is easy to quote, escape, interpolate or measure wrongly."""
    t = "".join(r.pick(TRICKY) for _ in range(r.pick([1, 1, 2, 3])))
    if r.chance(.2):            # the letters of an escape sequence
        c = chr(r.pick([r._randbelow(32), 127 + r._randbelow(34), r._randbelow(0x3000),
                        0xd800 + r._randbelow(2048), 0x10ffff]))
        e = r.pick([repr(c)[1:-1], ascii(c)[1:-1], "\\x%02x" % (ord(c) % 256),
                    "\\u%04x" % (ord(c) % 65536), "\\%o" % (ord(c) % 256), repr(t)[1:-1], repr(t)])
        t = r.pick([e, e + t, t + e, e * 2])
    return t


class Gen:
    def __init__(self, rng, **opt):
        self.rng = rng
        self.o = dict(DEFAULT)
        self.o.update(opt)
        self.busy = False

    # ---- scalars
    def scalar(self):
        r = self.rng
        kinds = [(1, "none"), (1, "bool"), (4, "int"), (5, "float"), (6, "str"), (1, "bytes")]
        if self.o["nondet"]:
            kinds += [(1, "uuid4"), (1, "datetime"), (1, "date")]
        else:
            kinds += [(0.5, "uuid4"), (0.5, "datetime"), (0.5, "date")]
        k = r.weighted(kinds)
        return getattr(self, "g_" + k)()

    def g_none(self):
        return Spec("none")

    def g_bool(self):
        return Spec("bool", value=self.rng.chance(.5)) if self.rng.chance(.4) else Spec("bool")

    def g_int(self):
        r = self.rng
        a = {}
        if r.chance(self.o["fixed"]):
            v = r.pick(values.INTS)
            if self.o["big"] and r.chance(0.05):
                v = values.BIG
            a["value"] = v
            if r.chance(0.35):
                a["min"] = v - r.pick([0, 0, 1, 5])
            if r.chance(0.35):
                a["max"] = v + r.pick([0, 0, 1, 5])
            return Spec("int", **a)
        if r.chance(0.55):
            a["min"] = r.pick(BOUND_INTS)
        if r.chance(0.55):
            lo = a.get("min")
            if lo is None or self.o["unsat"] and r.chance(0.2):
                a["max"] = r.pick(BOUND_INTS)
            else:
                a["max"] = lo + r.pick([0, 0, 1, 2, 10, 2 ** 64])
        return Spec("int", **a)

    def g_float(self):
        r = self.rng
        a = {}
        pool = BOUND_FLOATS if self.o["exotic_float"] else [x for x in BOUND_FLOATS
                                                            if math.isfinite(x)]
        if r.chance(self.o["fixed"]):
            v = r.pick(pool) if r.chance(0.6) else round(r.random() * 200 - 100, r._randbelow(6))
            if self.o["nan"] and r.chance(0.08):
                v = float("nan")
            a["value"] = v
            if v == v:
                if r.chance(0.3):
                    a["min"] = r.pick([v, v, v - 1.0, math.nextafter(v, -math.inf)])
                if r.chance(0.3):
                    a["max"] = r.pick([v, v, v + 1.0, math.nextafter(v, math.inf)])
        else:
            if r.chance(0.6):
                a["min"] = r.pick(pool) if r.chance(0.6) else \
                    round(r.random() * 20 - 10, r._randbelow(5))
            if r.chance(0.6):
                lo = a.get("min")
                if lo is None or (self.o["unsat"] and r.chance(0.2)):
                    a["max"] = r.pick(pool)
                elif math.isinf(lo) and lo > 0:
                    a["max"] = lo
                else:
                    c = [lo, math.nextafter(lo, math.inf)]
                    if math.isfinite(lo):
                        c += [x for x in (lo + 1e-3, lo + 0.04, lo + 0.1, lo + 0.5, lo + 1.0,
                                          lo + 3.7, lo + 1e19, abs(lo) * 2 + 1.0, 1.7e308,
                                          float("inf")) if x >= lo]
                    else:
                        c += [x for x in pool if x >= lo]
                    a["max"] = r.pick([x for x in c if self.o["exotic_float"]
                                       or math.isfinite(x)])
        if r.chance(0.45):
            a["precision"] = r.pick([1, 1, 2, 2, 3, 4, 5, 9, 14, 15])
        return Spec("float", **a)

    def _lens(self, lo, hi, top=None):
        """A len form satisfiable with an own range [lo, hi]."""
        r = self.rng
        big = [33, 40, 17, 20, 64]
        f = r.pick(["len", "min", "max", "both"])
        if f == "len":
            n = lo if hi == lo else r.pick([lo, lo, min(hi, lo + 1), min(hi, lo + 3),
                                            min(hi, r.pick(big)) if r.chance(.3) else lo])
            return {"len": max(n, lo)}
        if f == "min":
            c = [0, lo, max(0, lo - 1), min(hi, lo + 1)] + ([-1] if r.chance(.1) else [])
            if hi >= 100 and r.chance(0.3):
                c = big
            return {"min_len": r.pick(c)}
        if f == "max":
            return {"max_len": r.pick([lo, lo, lo + 1, lo + 5, max(lo, 40)])}
        m = r.pick([0, lo, min(hi, lo + 1), max(0, lo - 1)])
        if hi >= 100 and r.chance(0.2):
            m = r.pick(big)
        return {"min_len": m, "max_len": max(m, lo) + r.pick([0, 0, 1, 7])}

    def g_str(self):
        r = self.rng
        if r.chance(self.o["fixed"]):
            v = r.pick(VALUES_STR) if r.chance(.7) else tricky(r)
            a = {"value": v}
            n = len(v)
            if r.chance(0.1) and self.o["pattern"]:
                a["pattern"] = r.pick([".*", "^", "$", ""]) if "\n" not in v else "^"
                return Spec("str", **a)
            if r.chance(0.3):
                f = r.pick(["len", "min", "max", "both"])
                if f == "len":
                    a["len"] = n
                if f in ("min", "both"):
                    a["min_len"] = max(0, n - r.pick([0, 0, 1, 2]))
                if f in ("max", "both"):
                    a["max_len"] = n + r.pick([0, 0, 1, 2])
            if r.chance(0.2):
                a["alphabet"] = "".join(dict.fromkeys(v)) + r.pick(["", "", "xyz"])
            if r.chance(0.2):
                i = r._randbelow(n + 1)
                a["substr"] = v[i:i + r._randbelow(3)]
            return Spec("str", **a)
        if self.o["pattern"] and r.chance(0.15):
            t, node = regexgen.gen_pattern(r, r.pick([1, 2, 2]))
            return Spec("str", pattern=t, node=node)
        a = {}
        if r.chance(0.35):
            a["substr"] = r.pick(SUBSTRS) if r.chance(.85) else tricky(r)
        if r.chance(0.4):
            al = r.pick(ALPHABETS) if r.chance(.85) else tricky(r)
            if any(c not in al for c in a.get("substr", "")):
                if self.o["unsat"] and r.chance(0.3):
                    pass
                else:
                    al = "".join(dict.fromkeys(a["substr"])) + r.pick(["", "q"])
            a["alphabet"] = al
        lo = len(a.get("substr", ""))
        if r.chance(0.5):
            if a.get("alphabet") == "":
                a.update(r.pick([{"len": 0}, {"min_len": 0}, {"max_len": 3},
                                 {"min_len": 0, "max_len": 2}, {"max_len": 0}]))
            else:
                a.update(self._lens(lo, INF))
        return Spec("str", **a)

    def g_bytes(self):
        return Spec("bytes", value=self.rng.pick(values.BYTES)) if self.rng.chance(.5) \
            else Spec("bytes")

    def g_uuid4(self):
        if self.rng.chance(.5) or not self.o["nondet"]:
            return Spec("uuid4", value=self.rng.pick(values.UUIDS))
        return Spec("uuid4")

    def g_datetime(self):
        if self.rng.chance(.5) or not self.o["nondet"]:
            return Spec("datetime", value=self.rng.pick(values.DATETIMES))
        return Spec("datetime")

    def g_date(self):
        if self.rng.chance(.5) or not self.o["nondet"]:
            return Spec("date", value=self.rng.pick(values.DATES))
        return Spec("date")

    # ---- containers
    def key_pool(self):
        if self.o["keypool"] is not None:
            return self.o["keypool"]
        return values.KEYS if self.o["keys"] == "all" else ["a", "b", "c", "id", "name", "x"]

    def g_list(self, depth):
        r = self.rng
        f = r.weighted([(1, "untyped"), (3, "typed"), (3, "exact"), (2, "headell"), (2, "tailell"),
                        (3, "contains")])
        if f == "untyped":
            return Spec("list", **(self._lens(0, INF) if r.chance(0.6) else {}))
        if f == "typed":
            a = {"elem": self.gen(depth - 1)}
            if r.chance(0.5):
                a.update(self._lens(0, INF))
                if a.get("len", 0) > 20:
                    a["len"] = 17
            return Spec("list", **a)
        n = r.pick([0, 1, 1, 2, 2, 3])
        if f == "contains":
            n = max(1, n)
        elems = [self.gen(depth - 1) for _ in range(n)]
        if n >= 2 and r.chance(0.25):
            elems[1] = elems[0]
        a = {"elems": elems}
        if f == "exact":
            if r.chance(0.25):
                a.update(r.pick([{"len": n}, {"min_len": max(0, n - 1)}, {"max_len": n + 1},
                                 {"min_len": 0, "max_len": n}, {"min_len": n, "max_len": n}]))
            return Spec("list", **a)
        if f == "headell":
            a["head"] = True
        elif f == "tailell":
            a["tail"] = True
            if n == 0:            # [...] is the tail form of zero elements
                a.pop("tail")
                a["head"] = True
        else:
            a["head"] = a["tail"] = True
        if r.chance(0.35):
            a.update(r.pick([{"len": n}, {"len": n + 1}, {"len": n + 3}, {"len": n + 20},
                             {"min_len": n}, {"min_len": max(0, n - 1)}, {"max_len": n},
                             {"max_len": n + 2}, {"min_len": 0, "max_len": n + 1},
                             {"min_len": n, "max_len": n + 4}]))
        return Spec("list", **a)

    def g_dict(self, depth, untyped=True):
        r = self.rng
        if untyped and r.chance(0.08):
            return Spec("dict")
        n = r.pick([0, 1, 1, 2, 2, 3, self.o["max_width"]])
        keys, seen = [], set()
        for _ in range(n):
            key = r.pick(self.key_pool())
            if key in seen:
                continue
            seen.add(key)
            keys.append((key, self.gen(depth - 1), r.chance(0.35)))
        a = {"keys": keys}
        if r.chance(0.35):
            a["relaxed"] = True
            a["relaxed_at"] = r._randbelow(len(keys) + 1)
        return Spec("dict", **a)

    def g_any(self, depth):
        r = self.rng
        if r.chance(0.12):
            return Spec("any")
        n = r.pick([1, 2, 2, 3, 4])
        alts = [self.gen(depth - 1) for _ in range(n)]
        if r.chance(.1):            # alternatives that occur again, alone or in a nested union
            alts.insert(r._randbelow(n + 1), r.pick(alts) if r.chance(.4) else Spec(
                "any", alts=[r.pick(alts) for _ in range(r.pick([1, 2, 3]))]))
        return Spec("any", alts=alts)

    def gen(self, depth=3):
        r = self.rng
        top, self.busy = not self.busy, True
        try:
            for _ in range(30):
                s = self.huge() if top and r.chance(self.o["scale"]) else self._gen(depth)
                if self.o["unsat"] or sat(norm(s)):
                    return s
        finally:
            self.busy = not top
        return Spec("int")

    def _gen(self, depth):
        r = self.rng
        if depth <= 0 or r.chance(0.3):
            return self.scalar()
        table = [(4, "list"), (5, "dict"), (2, "any")]
        if self.o["alias"]:
            table.append((0.6, "alias"))
        if self.o["combos"]:
            table += [(0.7, "or"), (0.7, "add"), (0.5, "req")]
        if self.o["custom"]:
            table.append((self.o["custom"], "custom"))
        k = r.weighted(table)
        if k == "list":
            return self.g_list(depth)
        if k == "dict":
            return self.g_dict(depth)
        if k == "any":
            return self.g_any(depth)
        if k == "alias":
            return Spec("alias", name=r.pick(["Alias", "T", "user"]), target=self.gen(depth - 1))
        if k == "custom":
            return Spec("custom", target=self.gen(depth - 1))
        if k == "or":
            return Spec("or", left=self.gen(depth - 1), right=self.gen(depth - 1))
        if k == "add":
            return Spec("add", left=self.g_dict(depth, False), right=self.g_dict(depth, False))
        base = self.g_dict(depth)
        names = [key for key, _, _ in base.get("keys", [])]
        if r.chance(0.4):
            sel = None
        else:
            sel = [n for n in names if r.chance(0.5)]
            if r.chance(0.3) :
                sel = tuple(sel)
            elif r.chance(0.3):
                sel = set(sel)
        return Spec("req", base=base, names=sel)

    def rich(self, depth):
        """A spec whose root is a container (for position-sensitive properties)."""
        r = self.rng
        top, self.busy = not self.busy, True
        try:
            for _ in range(50):
                if top and r.chance(self.o["scale"]):
                    s = self.huge(r.pick(["list", "dict", "any", "deep", "or"]))
                else:
                    s = r.pick([self.g_list, self.g_dict, self.g_dict, self.g_list,
                                self.g_any])(depth)
                if self.o["unsat"] or sat(norm(s)):
                    return s
        finally:
            self.busy = not top
        return Spec("list")

    # ---- scale: sizes far beyond those of the ordinary grammar, one dimension at a time
    def huge(self, f=None):
        r = self.rng
        f = f or r.weighted([(4, "list"), (4, "dict"), (3, "any"), (3, "deep"), (3, "str"),
                             (1, "or")])
        return getattr(self, "h_" + f)()

    def small(self):
        """A cheap member of a wide schema."""
        return self.scalar() if self.rng.chance(.8) else self._gen(1)

    def h_list(self):
        r = self.rng
        f = r.pick(["exact", "exact", "head", "tail", "contains", "typed", "untyped"])
        n = r.pick(SIZES)
        if f in ("typed", "untyped"):
            a = {"elem": self.small()} if f == "typed" else {}
            m = r.pick([n, n, n + 1])
            a.update(r.pick([{"len": n}, {"min_len": n}, {"max_len": n},
                             {"min_len": n, "max_len": m}]))
            return Spec("list", **a)
        if f == "contains":
            n = min(n, 33)
        elems = [self.small() for _ in range(n)]
        if r.chance(.4):
            elems = [Spec("int", value=i) for i in range(n)]
        a = {"elems": elems}
        if f in ("head", "contains"):
            a["head"] = True
        if f in ("tail", "contains"):
            a["tail"] = True
        if f != "exact" and r.chance(.3):
            a.update(r.pick([{"len": n + 3}, {"min_len": n}, {"max_len": n + 2}]))
        elif f == "exact" and r.chance(.2):
            a["len"] = n
        return Spec("list", **a)

    def h_keys(self, n):
        r = self.rng
        f = r.pick(["str", "str", "int", "tuple", "mixed"])
        pool = {"str": lambda i: "k%d" % i, "int": lambda i: i, "tuple": lambda i: ("t", i)}
        if self.o["keys"] != "all" or self.o["keypool"] is not None:
            f = "str"
        out, seen = [], set()
        for i in range(n):
            key = pool[r.pick(["str", "int", "tuple"]) if f == "mixed" else f](i)
            if r.chance(.05):
                key = r.pick(self.key_pool())
            if key not in seen:
                seen.add(key)
                out.append(key)
        return out

    def h_dict(self):
        r = self.rng
        part = r.pick([0, 0.1, 0.5, 1])
        a = {"keys": [(k, self.small(), r.chance(part)) for k in self.h_keys(r.pick(SIZES))]}
        if r.chance(.35):
            a["relaxed"] = True
            a["relaxed_at"] = r._randbelow(len(a["keys"]) + 1)
        return Spec("dict", **a)

    def h_any(self):
        r = self.rng
        n = min(r.pick(SIZES), 101)
        f = r.pick(["int", "str", "small", "dict"])
        if f == "dict":
            n = min(n, 40)
        mk = {"int": lambda i: Spec("int", value=i * 3), "small": lambda i: self.small(),
              "str": lambda i: Spec("str", value="v%d" % i),
              "dict": lambda i: Spec("dict", keys=[("type", Spec("int", value=i), False),
                                                   ("x%d" % i, Spec("int"), r.chance(.3))])}
        return Spec("any", alts=[mk[f](i) for i in range(n)])

    def h_or(self):
        r = self.rng
        n = r.pick([5, 8, 16, 33])
        if not self.o["combos"]:
            return self.h_any()
        if r.chance(.5):
            s = self.small()
            for i in range(n):
                s = Spec("or", left=s, right=Spec("int", value=i))
            return s
        s = Spec("dict", keys=[("a", Spec("int"), False)])
        for i in range(n):
            s = Spec("add", left=s, right=Spec("dict", keys=[
                (r.pick(["a", "k%d" % i]), self.small(), r.chance(.3))]))
        return s

    def h_deep(self):
        r = self.rng
        n = r.pick([6, 8, 10, 12, 16, 17, 20, 25, 32, 33, 40])
        kinds = ["exact", "len", "dict", "opt", "any", "head", "tail"]
        if self.o["alias"]:
            kinds.append("alias")
        if r.chance(.4):
            kinds = [r.pick(kinds)]
        s = self.scalar()
        loose = r._randbelow(n)     # one open level at most: decoys on every level would make
        for i in range(n):          # values that double in size with each one
            k = r.pick(kinds)
            if k == "exact":
                s = Spec("list", elems=[s] if r.chance(.7) else [Spec("int"), s])
            elif k == "len":
                s = Spec("list", elem=s, len=1)
            elif k in ("dict", "opt"):
                key = r.pick(["a", "b", i if self.o["keys"] == "all" else "c"])
                s = Spec("dict", keys=[(key, s, k == "opt" and r.chance(.3))])
            elif k == "any":
                s = Spec("any", alts=[s, Spec("none")] if r.chance(.5) else [Spec("none"), s])
            elif k == "alias":
                s = Spec("alias", name="A%d" % i, target=s)
            else:
                s = Spec("list", elems=[s], max_len=2 if i == loose else 1, **{k: True})
        return s

    def h_str(self):
        r = self.rng
        n = r.pick(LENGTHS)
        f = r.pick(["value", "len", "min", "max", "both", "substr", "alphabet", "pattern"])
        if f == "pattern" and not self.o["pattern"]:
            f = "len"
        if f == "value":
            return Spec("str", value="".join(r.pick("abc\n'\xe9\\") for _ in range(n)))
        a = {}
        if r.chance(.5):
            a["alphabet"] = r.pick(["a", "ab", "xyz01", "\xe9\u4e2d\U0001f600"])
        if f == "len":
            a["len"] = n
        elif f == "min":
            a["min_len"] = n
        elif f == "max":
            a["max_len"] = n
        elif f == "both":
            a.update(min_len=n, max_len=n + r.pick([0, 1, 50]))
        elif f == "substr":
            a["substr"] = "".join(r.pick(a.get("alphabet") or "ab ") for _ in range(n))
            if r.chance(.4):
                a.update(r.pick([{"len": n}, {"len": n + 1}, {"min_len": n + 9}]))
        elif f == "alphabet":
            a["alphabet"] = "".join(chr(r.pick([0x21, 0x21, 0x400, 0x4e00]) + i)
                                    for i in range(min(n, 300)))
            a.update(r.pick([{}, {"len": n}, {"max_len": n}]))
        else:
            t, node = regexgen.huge_pattern(r)
            return Spec("str", pattern=t, node=node)
        return Spec("str", **a)
