"""Sizes far beyond ordinary ones, in one dimension at a time: (spec, values) with the odd spot at
the start, at the end, at a power of two or anywhere."""
from .spec import Spec

SIZES = [5, 17, 33, 65, 100, 129, 257, 500, 513, 1000, 1025, 2049, 4095, 4096, 4097, 5000, 8193,
         10001, 16385, 20000, 32769, 65537, 100001]
WIDTHS = [5, 10, 17, 33, 65, 101, 129, 257, 400]
DEPTHS = [5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 24, 25, 30, 31, 32, 33, 40, 50, 51, 64, 65, 70]


def spots(n, rng):
    c = {0, n - 1, n // 2, rng._randbelow(n)}
    k = 1
    while k <= n:
        c |= {k - 1, k} if rng.chance(.3) else {k}
        k *= 4
    return sorted(i for i in c if 0 <= i < n)


def strings(rng, n):
    """(spec, values) about text of about n letters."""
    base = "".join(rng.pick("ab") for _ in range(8)) * (n // 8 + 1)
    base = base[:n]
    S = "str"

    def put(i, t):
        return base[:i] + t + base[i + len(t):]
    at = [rng.pick(spots(n, rng)) for _ in range(4)] + [0, n - 1]
    yield Spec(S, alphabet="ab"), [base] + [put(i, "c") for i in at] + [base + "c", "c" + base]
    yield Spec(S, alphabet="ba", len=n), [base, base[1:], base + "a", put(n - 1, "\n")]
    yield Spec(S, value=base), [base, base[:-1], base + "a", ""] + [put(i, "c") for i in at]
    yield Spec(S, substr="xyz"), [base, base + "xyz", "xyz" + base, base + "xy"] + \
        [base[:i] + "xyz" + base[i:] for i in at] + [base[:i] + "xzy" + base[i:] for i in at]
    yield Spec(S, substr=base), [base, base[:-1], "c" + base + "c"] + [put(i, "c") for i in at]
    yield Spec(S, len=n), [base, base[1:], base + "a"]
    yield Spec(S, min_len=n), [base, base[1:], base + "a", base * 2]
    yield Spec(S, max_len=n), [base, base[1:], base + "a", ""]
    yield Spec(S, min_len=n // 2, max_len=n), [base, base + "a", base[:n // 2],
                                               base[:n // 2 - 1]]
    yield Spec(S, pattern="c[0-9]$"), [base, base + "c1", base + "c", base + "c1x", "c1" + base]
    yield Spec(S, pattern="^[ab]*$"), [base] + [put(i, "c") for i in at]
    by = base.encode()
    yield Spec("bytes", value=by), [by, by[:-1], by + b"a"] + [by[:i] + b"\0" + by[i + 1:]
                                                               for i in at]
    yield Spec("any", alts=[Spec("int"), Spec(S, alphabet="ab")]), [base, put(n - 1, "c"), 5]
    yield Spec("dict", keys=[(base, Spec("int"), False)]), \
        [{base: 1}, {base[:-1]: 1}, {put(n - 1, "c"): 1}, {base: "x"}]


def lists(rng, n):
    """(spec, values) about lists of about n members."""
    I = Spec("int", min=0)
    base = [rng._randbelow(5) for _ in range(n)]

    def put(i, x):
        return base[:i] + [x] + base[i + 1:]
    at = [rng.pick(spots(n, rng)) for _ in range(4)] + [0, n - 1]
    yield Spec("list", elem=I), [base, []] + [put(i, rng.pick([-1, "1", None, [0]])) for i in at]
    yield Spec("list", elem=I, len=n), [base, base[1:], base + [0], put(n - 1, -1)]
    yield Spec("list", len=n), [base, base[1:], base + [0]]
    yield Spec("list", min_len=n), [base, base[1:], base + [None]]
    yield Spec("list", max_len=n), [base, base[1:], base + [None]]
    yield Spec("list", elem=Spec("any", alts=[Spec("int", value=x) for x in range(5)])), \
        [base[:300], put(n - 1, 7)[-300:], base[:40] + [9]]
    mark = Spec("str", value="m")
    yield Spec("list", elems=[mark], head=True), [base, base + ["m"], ["m"] + base, base + ["m", 0]]
    yield Spec("list", elems=[mark], tail=True), [base, base + ["m"], ["m"] + base, [0, "m"] + base]
    two = [mark, Spec("int", value=9)]
    yield Spec("list", elems=two, head=True, tail=True), \
        [base, base + ["m", 9], ["m", 9] + base, base + ["m"], base + [9, "m"]] + \
        [base[:i] + ["m", 9] + base[i:] for i in at] + [base[:i] + ["m", 8] + base[i:] for i in at] \
        + [base[:i] + ["m", 7] + base[i:] + ["m", 9] for i in at]
    if n <= 1100:
        fixed = [Spec("int", value=x) for x in base]
        for head, tail in ((False, False), (True, False), (False, True)):
            yield Spec("list", elems=fixed, head=head, tail=tail), \
                [base, base[1:], base[:-1], base + [1], [1] + base] + [put(i, 7) for i in at]
    if n <= 130:
        fixed = [Spec("int", value=x) for x in base]
        yield Spec("list", elems=fixed, head=True, tail=True), \
            [base, [1] * 9 + base + [2] * 9, base[1:]] + [put(i, 7) for i in at]


def dicts(rng, n):
    """(spec, values) about dicts of about n keys."""
    keys = [rng.pick(["k%d" % i, i, ("t", i)]) for i in range(n)]
    rng.shuffle(keys)
    rows = [(k, Spec("int", value=i), rng.chance(.3)) for i, k in enumerate(keys)]
    base = {k: i for i, k in enumerate(keys)}
    at = [rng.pick(spots(n, rng)) for _ in range(4)] + [0, n - 1]
    vals = [base, dict(reversed(list(base.items()))), {}, {**base, "extra": 1}]
    for i in at:
        k = keys[i]
        vals += [{j: x for j, x in base.items() if j != k}, {**base, k: -1}, {**base, k: "x"}]
    yield Spec("dict", keys=rows), vals
    yield Spec("dict", keys=rows, relaxed=True), vals
    few = [("a", Spec("int"), False), ("b", Spec("str"), True)]
    wide = {**base, "a": 1}
    vals = [wide, base, {**wide, "b": 1}, {**wide, "a": "1"}, {"b": "x", **wide}]
    yield Spec("dict", keys=few, relaxed=True), vals
    yield Spec("dict", keys=few), vals
    alts = [Spec("int", value=i) for i in range(n)]
    yield Spec("any", alts=alts), [0, n - 1, n, -1, n // 2, "0"]
    yield Spec("any", alts=[Spec("dict", keys=[("t", Spec("int", value=i), False),
                                               ("v", Spec("int", min=i), False)])
                            for i in range(n)]), \
        [{"t": i, "v": i} for i in at] + [{"t": i, "v": i - 1} for i in at] + [{"t": 0}]


def towers(rng, depth):
    """(spec, values): one chain of nested containers, the innermost member odd."""
    leaf = rng.pick([(Spec("int", value=1), [1, 2, "1", None]),
                     (Spec("list", elems=[]), [[], [1], {}, None]),
                     (Spec("dict", keys=[]), [{}, {"a": 1}, [], None]),
                     (Spec("none"), [None, 0, [], "None"]),
                     (Spec("str", len=1), ["a", "", "ab", b"a"])])
    spec, vals = leaf[0], list(leaf[1])
    style = rng.pick(["list", "dict", "mixed", "mixed", "any"])
    for _ in range(depth):
        f = style if style in ("list", "dict") else rng.pick(["list", "dict", "elem", "head"])
        if style == "any" and rng.chance(.2):
            spec = Spec("any", alts=[Spec("str", value="never"), spec])
        if f == "list":
            spec, vals = Spec("list", elems=[spec]), [[v] for v in vals]
        elif f == "elem":
            spec, vals = Spec("list", elem=spec, len=1), [[v] for v in vals]
        elif f == "head":
            spec, vals = Spec("list", elems=[spec], head=True), [[0, v] for v in vals]
        else:
            k = rng.pick(["a", "b", 0, None])
            spec, vals = Spec("dict", keys=[(k, spec, rng.chance(.2))],
                              relaxed=rng.chance(.2)), [{k: v} for v in vals]
    yield spec, vals


def all_of(rng, text=10 ** 6, members=20000, width=400, deep=4):
    """One draw of each family, up to the given sizes."""
    yield from strings(rng, rng.pick([n for n in SIZES if n <= text]))
    yield from lists(rng, rng.pick([n for n in SIZES if n <= members]))
    yield from dicts(rng, rng.pick([n for n in WIDTHS if n <= width]))
    for _ in range(deep):
        yield from towers(rng, rng.pick(DEPTHS))


def plain_towers(rng, depth):
    """(value, others): nested containers around one member; the others differ in it only."""
    vals = list(rng.pick([[1, 2, "1", None, [1]], [[], [1], {}, None, [[]], ()],
                          [{}, {"a": 1}, [], None, {"": {}}], [None, 0, [], False, "None"],
                          ["", "a", b"", [], None], [[1, 2], [1, 3], [1], [1, 2, 2], [2, 1]],
                          [{"a": 1, "b": None}, {"a": 1}, {"a": 1, "b": 0}, {"a": 2, "b": None},
                           {"a": 1, "b": None, "c": None}]]))
    style = rng.pick(["list", "dict", "mixed"])
    for _ in range(depth):
        f = style if style != "mixed" else rng.pick(["list", "dict", "pair", "keys"])
        k = rng.pick(["a", "b", 0, None, "x y"])
        vals = [{"list": [v], "dict": {k: v}, "pair": [0, v], "keys": {"p": 1, k: v, "q": []}}[f]
                for v in vals]
    return vals[0], vals[1:]


def plain_large(rng):
    """(value, others): text, lists and dicts of many members; the others differ at one spot."""
    n = rng.pick([17, 33, 50, 65, 100, 101, 129, 200, 257, 1000, 1025, 3000])
    at = [rng.pick(spots(n, rng)) for _ in range(3)] + [0, n - 1]
    f = rng.pick(["text", "bytes", "same", "shared", "count", "records", "mixed", "keys", "held",
                  "matrix"])
    if f in ("text", "bytes"):
        n = rng.pick(SIZES)
        at = [rng.pick(spots(n, rng)) for _ in range(3)] + [0, n - 1]
        v = (rng.pick(["a", "ab", " ", "é\n", "\x00", "0"]) * n)[:n]
        others = [v[:-1], v + v[:1], v[:n // 2], v + " "] + [v[:i] + "#" + v[i + 1:] for i in at]
        if f == "bytes":
            v, others = v.encode(), [o.encode() for o in others]
    elif f in ("keys", "held"):
        one = rng.pick([None, [], {}, "x", [1]])
        v = {rng.pick(["k%d" % i, i, ("t", i)]): one if f == "held" else i for i in range(n)}
        ks = list(v)
        others = [{**v, "more": 1}, {**v, None: one}, {}] + \
            [{**v, ks[i]: "#"} for i in at] + \
            [{k: x for k, x in v.items() if k != ks[i]} for i in at]
    else:
        inner = rng.pick([[], {}, [1], {"a": 1}, [[2]], {"a": [], "b": None}])
        v = {"same": lambda: [rng.pick([0, None, "a", 0.5, b"b", True])] * n,
             "shared": lambda: [inner] * n,
             "count": lambda: list(range(n)),
             "records": lambda: [{"id": i, "tags": ["t"]} for i in range(n)],
             "mixed": lambda: [rng.pick([i, str(i), None, [i], {"v": i}]) for i in range(n)],
             "matrix": lambda: [[i * j for j in range(5)] for i in range(n)]}[f]()
        others = [v[:-1], v[1:], v + [v[0]], v + [v[-1]], v + [None], [v[0]], []] + \
            [v[:i] + ["#"] + v[i + 1:] for i in at] + [v[:i] + ["#"] + v[i:] for i in at]
        for i in at:
            x = v[i]
            if isinstance(x, list):
                others.append(v[:i] + [x + [0]] + v[i + 1:])
            elif isinstance(x, dict):
                others += [v[:i] + [{**x, "id": -1}] + v[i + 1:], v[:i] + [{}] + v[i + 1:]]
        others = [o for o in others if o != v]
    wrap = rng.pick([lambda x: x, lambda x: x, lambda x: [x], lambda x: {"k": x},
                     lambda x: [0, {"k": [x, x]}]])
    return wrap(v), [wrap(o) for o in others]
