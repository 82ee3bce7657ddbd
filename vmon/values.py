"""Value pools: plain values, a hostile zoo, one-step perturbations, boundary values."""
import collections
import copy
import datetime as dt
import decimal
import enum
import fractions
import math
import random as _r
import sys
import unicodedata
import uuid as _uuid

import d42

BIG = 10 ** 5000
INTS = [0, 1, -1, 2, 3, 7, 42, -7, 255, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 63,
        -2 ** 63 - 1, 2 ** 65, 10 ** 30]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.3, 3.14, -2.5, 1e-9, 1e9, 1e308, -1e308, 5e-324,
          sys.float_info.max, sys.float_info.min, 2.0 ** 53, 1.0000000001, 0.15, 2.675]
STRS = ["", "a", "b", "ab", "abc", "ABC", "banana", " ", "x y", "é", "Ж", "中", "😀", "\n", "\x00",
        "'", '"', "\\", "a'b\"c", "0", "123", "None", "...", "a\nb", "{}", "%s", "a" * 40]
# text whose case mappings, normal forms, widths or encodings are out of the ordinary
ODD = ["\xdf", "\u017f", "\u0131", "\u0130", "\u212a", "\ufb01", "\u03c2", "e\u0301", "\u1e9b\u0323", "\u2167",
       "\xb2", "\u0663", "\u200b", "\ufeff", "\u202e", "\ud800", "\x7f", "\x85", "\u2028", "\xa0", "\u3000",
       "\u01c5", "\U0001f468\u200d\U0001f469", "\uac00", "\xff", "\u0100", "\uffff", "\U0010ffff", "\t",
       "\r\n", "\x1b", "a\x00", " a", "a ", "A", "I", "i", "k", "K", "-", "_", "True", "nan", "1e5",
       "0x10", "1_000", "01", "+1", "1.0", "null", "schema", "optional('a')", "a.b", "[0]", "$", "\\n"]
BYTES = [b"", b"a", b"abc", b"\x00\xff", b"'", b"a\nb"]
_UTC = dt.timezone.utc
DATETIMES = [dt.datetime(2020, 1, 1), dt.datetime(1970, 1, 1, 0, 0, 1), dt.datetime.min,
             dt.datetime.max, dt.datetime(2024, 2, 29, 12, 30, 15, 123456),
             dt.datetime(2020, 1, 1, tzinfo=_UTC),
             dt.datetime(2020, 6, 1, 5, tzinfo=dt.timezone(dt.timedelta(hours=3))),
             dt.datetime(2021, 10, 31, 2, 30, fold=1), dt.datetime(2020, 1, 1, 0, 0, 0, 999999),
             dt.datetime(2020, 1, 1, 23, 59, 59, 1000, tzinfo=_UTC), dt.datetime(999, 12, 31, 5),
             dt.datetime(2020, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=-11, minutes=-30))),
             dt.datetime(2020, 1, 1, 12, tzinfo=dt.timezone(dt.timedelta(0), "X"))]
DATES = [dt.date(2020, 1, 1), dt.date.min, dt.date.max, dt.date(2024, 2, 29), dt.date(1970, 1, 1)]
_fix = _r.Random(7)
UUIDS = [_uuid.UUID(int=_fix.getrandbits(128), version=4) for _ in range(6)]
OTHER_UUIDS = [_uuid.UUID(int=0), _uuid.UUID(int=2 ** 128 - 1),
               _uuid.UUID("6ba7b810-9dad-11d1-80b4-00c04fd430c8"),
               _uuid.UUID(int=_fix.getrandbits(128), version=5),
               _uuid.UUID(int=_fix.getrandbits(128), version=3),
               _uuid.UUID("12345678-1234-4234-0234-567812345678")]   # version nibble, no RFC variant


def uuid4(rng):
    if rng.chance(0.5):
        return rng.pick(UUIDS)
    return _uuid.UUID(int=rng.getrandbits(128), version=4)


KEYS = ["a", "b", "c", "id", "name", "x y", "", "it's", "é", "...", 0, 1, -1, 2, None, 1.5,
        ("a", 1), b"k", frozenset({1}), True, "a.b", ("t",)]
KEYS += KEYS[:10] + ODD[:12]


def scalar(rng):
    r = rng._randbelow(12)
    if r == 0:
        return None
    if r == 1:
        return rng.chance(0.5)
    if r in (2, 3):
        return rng.pick(INTS)
    if r in (4, 5):
        return rng.pick(FLOATS)
    if r in (6, 7, 8):
        return rng.pick(STRS) if rng.chance(0.8) else rng.pick(ODD)
    if r == 9:
        return rng.pick(BYTES)
    if r == 10:
        return uuid4(rng)
    return rng.pick(DATETIMES) if rng.chance(0.5) else rng.pick(DATES)


def plain_value(rng, depth=2, keys=None):
    """Values that `from_native` documents as convertible."""
    if depth >= 2 and rng.chance(0.02):
        return large_value(rng)
    if depth <= 0 or rng.chance(0.6):
        return scalar(rng)
    n = rng.pick([0, 1, 1, 2, 3])
    if rng.chance(0.5):
        return [plain_value(rng, depth - 1, keys) for _ in range(n)]
    return {rng.pick(keys or KEYS): plain_value(rng, depth - 1, keys) for _ in range(n)}


def large_value(rng):
    """Far beyond ordinary sizes, in one dimension."""
    n = rng.pick([9, 10, 11, 16, 17, 20, 32, 33, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129])
    f = rng._randbelow(6)
    if f == 0:
        return [scalar(rng) for _ in range(n)]
    if f == 1:
        return {rng.pick(["k%d" % i, i, ("t", i)]): scalar(rng) for i in range(n)}
    if f == 2:
        v = scalar(rng)
        for i in range(min(n, 40)):
            v = rng.pick([lambda: [v], lambda: {"a": v}, lambda: {i: v}, lambda: [0, v]])()
        return v
    if f == 3:
        return "".join(rng.pick("ab\n'é\\") for _ in range(n * rng.pick([1, 10, 20])))
    if f == 4:
        return bytes(rng._randbelow(256) for _ in range(n * rng.pick([1, 10])))
    return [[scalar(rng) for _ in range(3)] for _ in range(n // 3)]


# ---------------------------------------------------------------- hostile zoo

class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class BytesSub(bytes):
    pass


class DateTimeSub(dt.datetime):
    pass


class DateSub(dt.date):
    pass


class UUIDSub(_uuid.UUID):
    pass


class Opaque:
    pass


class Slotted:
    __slots__ = ()


class NoCopy:
    """Opaque object that refuses copying and pickling (like locks, sockets, generators)."""

    def __deepcopy__(self, memo):
        raise TypeError("cannot copy")

    def __copy__(self):
        raise TypeError("cannot copy")

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle")


class HashlessStr(str):
    """Equality redefined, so there is no hash."""

    def __eq__(self, other):
        return str.__eq__(self, other)


class HashlessInt(int):
    def __eq__(self, other):
        return int.__eq__(self, other)


class Duck:
    """An ordinary object with attributes that schemas happen to have too."""
    props = {}
    type = int
    value = 1
    keys = ()


class Same:
    """Distinct objects with one printed form."""

    def __repr__(self):
        return "<same>"


class Color(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


class Flag(enum.IntFlag):
    A = 1


class Text(str, enum.Enum):
    A = "a"


Point = collections.namedtuple("Point", "x y")


class DefaultingDict(dict):
    def __missing__(self, key):
        return 0


def _refuse(self, *args):
    raise ValueError("the truth value is ambiguous")


class Ambiguous:
    """Compares element-wise, like an array: the outcome of a comparison has no truth value."""

    def __eq__(self, other):
        return Ambiguous()

    def __ne__(self, other):
        return Ambiguous()

    __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = object.__hash__
    __bool__ = _refuse


class Prickly:
    """Opaque object of which no special method works but the hash."""

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = _refuse
    __contains__ = __getitem__ = __str__ = __int__ = __float__ = __index__ = _refuse
    __add__ = __radd__ = __mul__ = __rmul__ = __mod__ = __format__ = __bytes__ = _refuse
    __deepcopy__ = __copy__ = __reduce_ex__ = _refuse
    __hash__ = object.__hash__


class Unprintable(Prickly):
    __repr__ = _refuse


class Agreeable:
    """Equal to everything, like mock.ANY."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


PRICKLY = [Ambiguous, Prickly, Unprintable, Agreeable]


def zoo(rng):
    """One hostile value (never an object whose own special methods raise, except Python's own
    int->str conversion limit)."""
    return rng.pick(ZOO)()


def _gen():
    yield 1


_lambda = (lambda: 0)

ZOO = [
    lambda: float("nan"), lambda: float("inf"), lambda: float("-inf"),
    lambda: sys.float_info.max, lambda: -sys.float_info.max, lambda: 5e-324,
    lambda: BIG, lambda: -BIG, lambda: 10 ** 400, lambda: 2 ** 64, lambda: 10 ** 4299,
    lambda: 10 ** 4300, lambda: [BIG], lambda: {BIG: 1}, lambda: {"a": {BIG: [BIG]}},
    lambda: (BIG,), lambda: decimal.Decimal("1.5"), lambda: decimal.Decimal("NaN"),
    lambda: decimal.Decimal("sNaN") if False else decimal.Decimal("Infinity"),
    lambda: decimal.Decimal(10) ** 100,
    lambda: fractions.Fraction(1, 3), lambda: complex(1, 2), lambda: complex("nan"),
    lambda: (), lambda: (1, 2), lambda: ("a", [1]), lambda: {1, 2}, lambda: set(),
    lambda: frozenset({1}), lambda: bytearray(b"ab"), lambda: memoryview(b"ab"),
    lambda: range(3), lambda: iter([]), lambda: _gen(), lambda: slice(1, 2),
    lambda: HashlessStr("abc"), lambda: HashlessInt(1),
    lambda: IntSub(5), lambda: StrSub("abc"), lambda: StrSub(""), lambda: FloatSub(1.5),
    lambda: FloatSub("nan"), lambda: ListSub([1, 2]), lambda: ListSub(), lambda: DictSub(a=1),
    lambda: DictSub(), lambda: BytesSub(b"x"), lambda: DateTimeSub(2020, 1, 1),
    lambda: DateSub(2020, 1, 1), lambda: UUIDSub(int=5), lambda: UUIDSub(int=5, version=4),
    lambda: rng_uuid(0), lambda: rng_uuid(1), lambda: rng_uuid(2), lambda: rng_uuid(3),
    lambda: rng_uuid(4), lambda: rng_uuid(5),
    lambda: collections.OrderedDict([("a", 1)]), lambda: collections.defaultdict(list),
    lambda: DefaultingDict(), lambda: collections.Counter("ab"), lambda: collections.deque([1]),
    lambda: collections.UserDict(a=1), lambda: collections.UserList([1]),
    lambda: collections.UserString("a"), lambda: collections.ChainMap({"a": 1}),
    lambda: Point(1, 2), lambda: Color.RED, lambda: Num.ONE, lambda: Flag.A, lambda: Text.A,
    lambda: object(), lambda: Opaque(), lambda: Slotted(), lambda: NoCopy(),
    lambda: Opaque, lambda: int, lambda: type, lambda: len, lambda: _lambda, lambda: sys,
    lambda: Ellipsis, lambda: NotImplemented, lambda: ValueError("x"), lambda: None,
    lambda: True, lambda: False, lambda: 0, lambda: "", lambda: [], lambda: {}, lambda: b"",
    lambda: dt.timedelta(1), lambda: dt.time(1), lambda: dt.timezone.utc,
    lambda: dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), lambda: dt.datetime.max,
    lambda: dt.date.min,
    lambda: Duck(), lambda: [Duck()], lambda: Duck, lambda: Same(), lambda: [Same(), Same()],
    lambda: {Same(): 1, Same(): 2}, lambda: {float("nan"): 1, float("nan"): 2},
    lambda: type(d42.schema.int), lambda: d42.schema, lambda: d42.schema.int.props,
    lambda: [d42.schema.int], lambda: {"a": d42.schema.str}, lambda: d42.optional("a"),
    lambda: {d42.optional("a"): 1},
    lambda: [object()], lambda: {object(): object()}, lambda: {NoCopy(): NoCopy()},
    lambda: [NoCopy()], lambda: {"a": NoCopy()},
    lambda: {(1, 2): 3}, lambda: {frozenset({1}): 1}, lambda: {None: None}, lambda: {1.5: 1},
    lambda: {float("nan"): 1}, lambda: {Ellipsis: Ellipsis}, lambda: {Ellipsis: 1},
    lambda: [Ellipsis], lambda: [1, Ellipsis], lambda: {Color.RED: 1}, lambda: {b"x": 1},
    lambda: {True: 1, 2: 2}, lambda: {int: 1}, lambda: {rng_uuid(0): 1},
    lambda: "\ud800", lambda: "\x00" * 3, lambda: "a" * 5000, lambda: "\u202e", lambda: [[[[[]]]]],
    lambda: _deep(60), lambda: list(range(200)), lambda: dict.fromkeys(range(150)),
    lambda: [[i] for i in range(60)], lambda: tuple(range(1000)), lambda: b"x" * 3000,
    lambda: {"k%d" % i: [i] for i in range(120)}, lambda: set(range(300)), lambda: ["y" * 300] * 70,
    lambda: list(range(5000)), lambda: "\n" * 200, lambda: " ", lambda: "{}", lambda: "%s %d {0}",
    lambda: {"{x}": "%"}, lambda: ["{0.__class__}"], lambda: {"a": {"b": {"c": [1, {"d": None}]}}},
]


def rng_uuid(i):
    return OTHER_UUIDS[i]


def _deep(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


# ---------------------------------------------------------------- perturbations

def positions(v, path=(), limit=200):
    out = [path]
    if isinstance(v, list):
        for i, x in enumerate(v):
            out += positions(x, path + (i,), limit)
            if len(out) > limit:
                break
    elif isinstance(v, dict):
        for k, x in v.items():
            out += positions(x, path + (k,), limit)
            if len(out) > limit:
                break
    return out


def _key_text(k):
    try:
        return str(k)
    except ValueError:
        return "big"


def near_key(k, rng):
    """A dict key that is easily mistaken for `k`."""
    c = [_key_text(k) + "_", "zz", ("k", 1), -5, (k,), _key_text(k)]
    if isinstance(k, str):
        c += [k.casefold(), k.upper(), k.strip(), unicodedata.normalize("NFKC", k), k + " ", " " + k,
              k.encode("utf8", "surrogatepass"), k.swapcase(), k + "\n", k[:-1], k + ".", repr(k),
              k.replace("_", "-"), k.replace("-", "_"), "_" + k, k + "?", k + "\x00"]
        if k.isdecimal() and len(k) < 400:
            c += [int(k), int(k)]
    elif isinstance(k, bytes):
        c += [k.decode("latin1"), k + b" ", k.upper()]
    elif isinstance(k, (int, float)) and k == k and abs(k) < 1e15:
        c += [k + 0.5, str(k), -k or "0", k + 1]
    elif k is None:
        c += ["None", "", False, 0]
    elif isinstance(k, tuple):
        c += [k + (0,), k[:-1], "".join(map(_key_text, k))]
    return rng.pick(c)


def near(v, rng):
    """A value close to `v` but different (kind, content, length, key set)."""
    if v is None:
        return rng.pick([False, 0, "", [], {}, "None"])
    if isinstance(v, bool):
        return rng.pick([not v, int(v) + 2, str(v), None, float(v)])
    if isinstance(v, int):
        return rng.pick([v + 1, v - 1, -v if v else 1, v * 2 + 1, str(v) if abs(v) < 10 ** 100 else
                         "x", None, [v], float(v) if abs(v) < 2 ** 1000 else 0.5, v ^ 1])
    if isinstance(v, float):
        if v != v or math.isinf(v):
            return rng.pick([0.0, -v, 1e308, 1, None, sys.float_info.max])
        return rng.pick([v + 1.0, v - 1.0, v * 1.01 + 1e-3, -v if v else 1.0,
                         math.nextafter(v, math.inf), math.nextafter(v, -math.inf),
                         int(v), str(v), None, float("nan"), float("inf"),
                         v * (1 + 1e-10), v * (1 + 1e-8), v + 0.05, v + 0.1, v - 0.1])
    if isinstance(v, str):
        c = [v.casefold(), v.title(), unicodedata.normalize("NFC", v),
             unicodedata.normalize("NFD", v), unicodedata.normalize("NFKC", v), v.expandtabs(),
             v + "a", v + " ", v + "\n", v.upper(), v.lower(), v[:-1], v[1:], v[::-1], v * 2, None,
             v.encode("utf8", "surrogatepass"), [v], "a" + v, "\n" + v, v.strip(), v.swapcase()]
        if v:
            i = rng._randbelow(len(v))
            c += [v[:i] + rng.pick("abz09_ é-") + v[i + 1:], v[:i] + v[i + 1:],
                  v[:i] + rng.pick("abz09_ é-") + v[i:]] * 2
        return rng.pick(c)
    if isinstance(v, bytes):
        return rng.pick([v + b"a", v[:-1], v.decode("latin1"), bytearray(v), list(v), None,
                         v[::-1], v.upper()])
    if isinstance(v, _uuid.UUID):
        return rng.pick([_uuid.UUID(int=v.int ^ 1), str(v), v.int, v.bytes, rng.pick(OTHER_UUIDS),
                         _uuid.UUID(int=v.int, version=1), rng.pick(UUIDS), None])
    if isinstance(v, dt.datetime):
        c = [v.date(), v.isoformat(), None, v.replace(microsecond=(v.microsecond + 1) % 10 ** 6),
             v.replace(second=(v.second + 1) % 60)]
        c.append(v.replace(tzinfo=None) if v.tzinfo else v.replace(tzinfo=dt.timezone.utc))
        c.append(v.replace(fold=1 - v.fold))
        if v.tzinfo:
            try:  # the same instant on another clock
                c += [v.astimezone(dt.timezone(dt.timedelta(hours=h))) for h in (0, 5, -9.5)]
            except OverflowError:
                pass
        return rng.pick(c)
    if isinstance(v, dt.date):
        c = [v.isoformat(), None, dt.datetime(v.year, v.month, v.day),
             v.replace(day=1 if v.day > 1 else 2)]
        return rng.pick(c)
    if isinstance(v, list):
        c = [v + [rng.pick([None, 0, "a", [], {}])], v[:-1], v[1:], v[::-1], tuple(v), None, {},
             [rng.pick([None, 0, "a"])] + v, v + v, dict(enumerate(v)), [v]]
        if v:
            i = rng._randbelow(len(v))
            j = rng._randbelow(len(v))
            w = list(v)
            w[i], w[j] = w[j], w[i]
            c += [w, v[:i] + v[i + 1:], v[:i] + [v[i]] + v[i:], v[:i] + [None] + v[i:],
                  v + [v[i]]] * 2
        return rng.pick(c)
    if isinstance(v, dict):
        c = [list(v), None, list(v.items()), [], {**v, rng.pick(["zz", 99, ("q",), None, "A", ""]):
                                                  rng.pick([None, 1, "a", []])}] * 1
        if v:
            ks = list(v)
            k = rng.pick(ks)
            w = dict(v)
            del w[k]
            u = dict(v)
            val = u.pop(k)
            u[near_key(k, rng)] = val
            x = dict(v)
            if len(ks) > 1:
                k2 = rng.pick(ks)
                x[k], x[k2] = x[k2], x[k]
            c += [w, w, w, u, x, {**v, k: None}, {}, dict(reversed(list(v.items())))]
        return rng.pick(c)
    return rng.pick([None, 0, "a", [], {}, str(type(v))])


def perturb(v, rng):
    """-> (path, perturbed copy) with one step changed at a random depth."""
    from .spec import get_at, set_at
    p = rng.pick(positions(v))
    return p, set_at(v, p, near(get_at(v, p), rng))


def fresh(v):
    """A structural copy with fresh containers (leaves shared)."""
    if type(v) is list:
        return [fresh(x) for x in v]
    if type(v) is dict:
        return {k: fresh(x) for k, x in v.items()}
    return v


def same(a, b):
    """Strict structural identity of observations: types, order of dict keys, nan == nan."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            (k1 is k2 or same(k1, k2)) and same(x, y)
            for (k1, x), (k2, y) in zip(a.items(), b.items()))
    if isinstance(a, dt.datetime):  # == overlooks the fold, and the clock of an aware one
        return a == b and a.fold == b.fold and a.utcoffset() == b.utcoffset() \
            and a.tzname() == b.tzname()
    return a is b or bool(a == b)


class Ident:
    """The identity of an object, which stays alive (an address alone may be used again)."""
    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of

    def __eq__(self, other):
        return type(other) is Ident and self.of is other.of

    def __hash__(self):
        return id(self.of)

    def __repr__(self):
        return "<%s at %#x>" % (type(self.of).__name__, id(self.of))


def snapshot(v):
    """A hashable/comparable deep snapshot: identities of leaves, contents of containers."""
    if isinstance(v, (list, tuple)):
        return (type(v), Ident(v), tuple(snapshot(x) for x in v))
    if isinstance(v, dict):
        return (type(v), Ident(v), tuple((Ident(k), snapshot(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return (type(v), Ident(v), frozenset(Ident(x) for x in v))
    if isinstance(v, bytearray):
        return (type(v), Ident(v), bytes(v))
    return Ident(v)


# texts in which letters, code units, bytes, graphemes and columns are counted differently
ODD_TEXT = ["e\u0301", "\U0001f600", "\r\n", "a\u200d", "\ud83d\ude00", "\u1100\u1161", "\u00df",
            "\t", "\x00", "\ufb03", "\u202e", "\u3042", " \u00a0"]


def boundary(s, rng):
    """Values on the boundaries of a (normalised) spec's own constraints."""
    k = s.kind
    out = []
    if k == "int":
        for n in ("min", "max", "value"):
            if s.has(n):
                out += [s.a[n] - 1, s.a[n], s.a[n] + 1]
    elif k == "float":
        for n in ("min", "max", "value"):
            if s.has(n):
                b = s.a[n]
                out += [b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf),
                        b * (1 + 9e-10), b * (1 + 1.1e-9), b * (1 - 9e-10), -b]
                p = s.get("precision")
                if p is not None:
                    q = 10.0 ** -p
                    out += [b + q * 0.4, b + q * 0.6, b - q * 0.4, b - q * 0.6, b + q, b - q,
                            b + q / 2, b - q / 2, b + q * 0.04]
    elif k == "str":
        base = s.get("alphabet") or "ab"
        for n in ("len", "min_len", "max_len"):
            if s.has(n) and s.a[n] < 5000:
                for m in (s.a[n] - 1, s.a[n], s.a[n] + 1):
                    if m >= 0:
                        out.append((rng.pick(ODD_TEXT) * m)[:m])
                        sub = s.get("substr", "")
                        out.append((base * m)[:m])
                        if len(sub) <= m:
                            fill = (base * m)[:m - len(sub)]
                            out += [sub + fill, fill + sub]
        if s.has("substr"):
            t = s.a["substr"]
            out += [t, t[:-1], t[1:], t.swapcase(), "x" + t + "y"]
        if s.has("alphabet"):
            t = s.a["alphabet"]
            out += [t, t.swapcase(), t + "\x7f", t[::-1], "\x7f" + t]
        if s.has("value"):
            t = s.a["value"]
            out += [t, t + "a", t[:-1], t.swapcase()]
        if s.has("pattern") and s.get("node") is not None:
            from . import regexgen
            t = regexgen.sample(s.a["node"], rng)
            out += [t, t + "\n", "\n" + t, t[:-1], "zz" + t, t + "zz", t.swapcase(), ""]
    elif k == "list":
        n = None
        for name in ("len", "min_len", "max_len"):
            if s.has(name):
                n = s.a[name]
                for m in (n - 1, n, n + 1):
                    if 0 <= m < 200:
                        out.append([None] * m)
        if s.has("elems"):
            m = len(s.a["elems"])
            for c in (m - 1, m, m + 1):
                if c >= 0:
                    out.append([None] * c)
    elif k == "dict":
        out += [{}, {key: None for key, _, _ in s.get("keys", [])}]
        out.append({key: None for key, _, o in s.get("keys", []) if not o})
    elif k == "uuid4":
        out += OTHER_UUIDS[:3]
    elif k == "any":
        for x in s.get("alts", [])[:3]:
            out += boundary(x, rng)[:4]
    if k in ("bool", "bytes", "datetime", "date", "uuid4") and s.has("value"):
        out += [s.a["value"], near(s.a["value"], rng)]
    return out


def deep_equal_copy(v):
    return copy.deepcopy(v)
