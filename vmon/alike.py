"""Families of declarations and values that differ in one spot and agree in whatever a short key
would keep of them: length, first or last letters, set of letters, case, hash, printed form."""
import datetime as dt
import uuid

from .spec import Spec

LENGTHS = (2, 3, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 49, 50, 63, 64, 65, 80, 99, 100, 101,
           120, 127, 128, 129, 160, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000)
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
P = 2 ** 61 - 1     # numbers that differ by a multiple of P have equal hashes


def texts(rng, n):
    """Distinct texts of n letters that differ from the first in one place (or in order)."""
    base = [rng.pick(LETTERS) for _ in range(n)]
    base[-1], base[0] = "b", "a"
    out = ["".join(base)]
    for i in {0, n - 1, n // 2, rng._randbelow(n), rng._randbelow(n)}:
        for c in ("q", base[i].swapcase()):
            out.append("".join(base[:i] + [c] + base[i + 1:]))
    i = rng._randbelow(n - 1)
    out.append("".join(base[:i] + [base[i + 1], base[i]] + base[i + 2:]))
    out.append("".join(reversed(base)))
    out.append("".join(base[1:] + base[:1]))
    return list(dict.fromkeys(out))


def numbers(rng):
    n = rng.pick([0, 1, 2, 5, -1, -2, -5, 255, 256, 257, 10 ** 9, 2 ** 31, 2 ** 63, P - 1])
    out = [n, n + P, n - P, n + 2 * P, n + 1, -n, n + 2 ** 32, n + 2 ** 64, n + 2 ** 53]
    return list(dict.fromkeys(out + ([-1, -2] if n in (-1, -2) else [])))


def floats(rng):
    x = rng.pick([0.5, 1.5, 0.1, 3.0, 1e16, 123456.75, -2.0, -1.0])
    out = [x, x + 2 ** -20, x * 2, -x, x + 1e-9, 2.0 ** 61 * x, float(repr(x)[:6] + "1") if "e" not in repr(x)
           else x + 2]
    return list(dict.fromkeys(out))


def uuids(rng):
    n = uuid.UUID(int=rng.getrandbits(128), version=4).int & ~(1 << 61) | 1
    out = [n, n + P, n ^ 2, n ^ (1 << 127), n ^ (1 << 64), n ^ (1 << 96)]
    out = [uuid.UUID(int=x) for x in out]
    return [x for x in dict.fromkeys(out) if x.version == 4]


def moments(rng):
    d = dt.datetime(2020, rng.pick(range(1, 12)), rng.pick(range(1, 28)), 12, 30, 15, 500)
    out = [d, d.replace(microsecond=501), d.replace(microsecond=0), d.replace(second=16), d.replace(hour=0),
           d.replace(day=28), d.replace(year=2021), d.replace(month=12)]
    return list(dict.fromkeys(out))


def plain(rng):
    """A family of distinct plain values of one kind."""
    k = rng._randbelow(9)
    if k == 0:
        return numbers(rng)
    if k == 1:
        return floats(rng)
    if k == 2:
        return uuids(rng)
    if k == 3:
        return moments(rng)
    if k == 4:
        return list(dict.fromkeys(x.date() for x in moments(rng)))
    if k == 5:
        return [t.encode() for t in texts(rng, rng.pick(LENGTHS))]
    return texts(rng, rng.pick(LENGTHS))


def nested(rng, family):
    """The same family deep inside equal surroundings."""
    k = rng._randbelow(5)
    n = rng.pick([1, 3, 9, 20])
    pad = [rng.pick([0, "x", None, b"y"]) for _ in range(n)]
    i = rng._randbelow(n + 1)
    if k == 0:
        return [pad[:i] + [x] + pad[i:] for x in family]
    if k == 1:
        return [{**{"p%d" % j: y for j, y in enumerate(pad)}, "v": x} for x in family]
    if k == 2:
        return [{"a": [{"b": [pad, x]}]} for x in family]
    if k == 3:
        return [{x if not isinstance(x, float) else str(x): 1} for x in family]
    return family


def patterns(rng):
    """A family of supported patterns of one length and shape."""
    n = rng.pick(LENGTHS)
    words = texts(rng, n)[:8]
    k = rng._randbelow(6)
    if k == 0:
        return words
    if k == 1:      # an equal head or tail of n letters, with different things after or before it
        parts = ["[ab]", "[xy]", "[0-9]"[:5], "(c)?", "(d)?", "(?:)e", "\\d{2}", "\\w{3}", "....", "z{9}"]
        w = words[0]
        return [w + p for p in parts] if rng.chance(.5) else [p + w for p in parts]
    if k == 2:
        w = words[0]
        return [w[:n // 2] + p + w[n // 2:] for p in ("[ab]", "[yz]", "\\d\\d", "\\w+", "c{3}", "c{4}", "c{3,}", "(x)?")]
    if k == 3:
        return ["%s%s%s" % (a, words[0], b) for a, b in
                (("", ""), ("^", "$"), ("(", ")"), ("(?:", ")"), ("(?:", ")?"), ("(", "){2}"), ("", "|x"), ("", "+"))]
    if k == 4:
        return ["[%s]{3}" % w for w in words]
    return ["|".join(w[i::2] for i in (0, 1)) for w in words]


def specs(rng):
    """-> a family of declarations (without patterns), one spot apart."""
    k = rng._randbelow(12)
    if k == 0:
        return [Spec("int", value=x) for x in numbers(rng)]
    if k == 1:
        return [Spec("int", min=x, max=x + 1) for x in numbers(rng)]
    if k == 2:
        return [Spec("float", value=x) for x in floats(rng)]
    if k == 3:
        ws = texts(rng, rng.pick(LENGTHS))
        return [Spec("str", value=w) for w in ws]
    if k == 4:
        return [Spec("str", substr=w, min_len=len(w), max_len=len(w) + 3)
                for w in texts(rng, rng.pick([n for n in LENGTHS if n < 600]))]
    if k == 5:
        return [Spec("str", alphabet=w, len=5) for w in texts(rng, rng.pick([2, 3, 7, 8, 16, 20, 33]))]
    if k == 6:
        return [Spec("bytes", value=w.encode()) for w in texts(rng, rng.pick(LENGTHS))]
    if k == 7:
        return [Spec("dict", keys=[(w, Spec("int", min=1, max=2), False)])
                for w in texts(rng, rng.pick(LENGTHS))] + \
            [Spec("dict", keys=[(x, Spec("int", min=1, max=2), False)]) for x in numbers(rng)]
    if k == 8:
        return [Spec("uuid4", value=x) for x in uuids(rng)]
    if k == 9:
        return [Spec("datetime", value=x) for x in moments(rng)]
    inner = specs(rng)
    if k == 10:
        n = rng.pick([1, 2, 8, 17])
        i = rng._randbelow(n)
        rest = [Spec("str", value="k%d" % j) for j in range(n)]
        return [Spec("dict", keys=[("k%d" % j, x if j == i else y, False) for j, y in enumerate(rest)])
                for x in inner]
    f = rng._randbelow(4)
    if f == 0:
        return [Spec("list", elem=x, len=2) for x in inner]
    if f == 1:
        return [Spec("list", elems=[Spec("none"), x, Spec("bool", value=True)]) for x in inner]
    if f == 2:
        return [Spec("any", alts=[x, Spec("none")]) for x in inner]
    return [Spec("alias", name="T", target=x) for x in inner]


def families(m, rng, count, make=specs):
    """-> (family, member) pairs: every family in two random orders, one right after the other."""
    for _ in range(count):
        family = make(rng)
        m.count("alike_families")
        for _ in range(2):
            rng.shuffle(family)
            for x in family:
                m.count("alike")
                yield family, x
