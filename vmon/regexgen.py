"""Random regular expressions over the constructs d42's generator supports, with a sampler.

Nodes are tuples:
  ("lit", text, char) ("any",) ("digit",) ("word",) ("class", text) ("group", kind, node, name)
  ("alt", [node...]) ("seq", [node...]) ("rep", node, lo, hi|None, lazy, text) ("raw", text)
"""
import re
import string

LITERALS = list("abcXYZ019_ -:,;!@#%&=<>'\"/~`") + ["é", "ß", "Ж", "\u4e2d", "\U0001f600"]
ESCAPED = [("\\.", "."), ("\\*", "*"), ("\\+", "+"), ("\\?", "?"), ("\\(", "("), ("\\)", ")"),
           ("\\[", "["), ("\\]", "]"), ("\\{", "{"), ("\\}", "}"), ("\\|", "|"), ("\\^", "^"),
           ("\\$", "$"), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"),
           ("\\x41", "A"), ("\\u00e9", "\u00e9"), ("\\-", "-"), ("\\/", "/"), ("\\x00", "\0"),
           ("\n", "\n"), ("\\\n", "\n"), ("\t", "\t"), ("\x00", "\0"), ("\r", "\r"),
           ("\\'", "'"), ('\\"', '"'), ("'", "'"), ('"', '"'), ("\\\\", "\\"), ("\u2028", "\u2028"),
           ("\\x7f", "\x7f"), ("\\a", "\a"), ("\\f", "\f"), ("\\v", "\v"), ("\\ ", " ")]
POOL = string.ascii_letters + string.digits + string.punctuation + " \t\n\x00\x7f" + "éßЖ中«"

UNSUPPORTED = [r"(?=a)", r"(?!a)", r"(?<=a)", r"(?<!a)", r"\s", r"\S", r"\D", r"\W",
               r"[\s]", r"[^\s]", r"[\D]", r"[^\W]", r"[a\S]", r"(?>a)", r"(?>a|ab)", r"a*+",
               r"a++", r"a?+", r"a{1,3}+", r"(?>[ab]+)", r"(?=b)b", r"(?!b)b", r"(?:(?=x)y)",
               r"(?<!z)z", r"[\d\W]", r"[^\s\d]"]


def _class_item(rng):
    r = rng.random()
    if r < 0.4:
        c = rng.pick(list("abcXYZ019_") + ["é", "Ж"])
        return c
    if r < 0.55:
        return rng.pick(["\\]", "\\^", "\\-", "\\\\", "\\.", "\\[", "\\n", "\\t", " ", "!", "@",
                         "\\x20", "\\/", "\\&", "\\~", "\\|"])
    if r < 0.9:
        return rng.pick(["a-z", "A-Z", "0-9", "a-c", "X-Z", "!-/", " -~", "a-a", "0-0", "y-z",
                         "\\x00-\\x1f", "à-ü", "!-\\-", "\\[-\\]", "1-9", "\\x20-\\x2f"])
    return rng.pick(["\\d", "\\w"])


def gen_class(rng):
    neg = rng.chance(0.4)
    items = [_class_item(rng) for _ in range(1 + rng._randbelow(4))]
    if rng.chance(0.1):
        items.append("-")
    if rng.chance(0.08):     # wide ranges
        items.append(rng.pick(["\\u0400-\\u0600", "\\x80-\\u0180", "\\u4e00-\\u5000", "Ā-ϿЀ"] +
                              ([] if neg else ["\\x00-\\uffff", "\\U00010000-\\U0010ffff"])))
    text = "[" + ("^" if neg else "") + "".join(items) + "]"
    if rng.chance(0.06):
        text = rng.pick(["[^ -~]", "[^\\x00-\\x7f]", "[^\\w!-/:-@\\[-`{-~ ]", "[^\\x00-\\xff]",
                         "[^!-~]", "[^a-zA-Z0-9!-/:-@\\[-`{-~]", "[^\\d\\w -~]"])
    return ("class", text)


def _has_rep(node):
    k = node[0]
    if k == "rep":
        return True
    if k == "group":
        return _has_rep(node[2])
    if k in ("alt", "seq"):
        return any(_has_rep(x) for x in node[1])
    return False


def _rep_depth(node):
    k = node[0]
    if k == "rep":
        return 1 + _rep_depth(node[1])
    if k == "group":
        return _rep_depth(node[2])
    if k in ("alt", "seq"):
        return max([_rep_depth(x) for x in node[1]], default=0)
    return 0


def _single(node):
    """Consumes exactly one character."""
    k = node[0]
    if k == "group":
        return _single(node[2])
    if k == "seq":
        return len(node[1]) == 1 and _single(node[1][0])
    return k in ("lit", "any", "digit", "word", "class")


def _words(rng):
    """An alternation of literal words with distinct first characters (unambiguous)."""
    firsts = list("abcxyz019")
    rng.shuffle(firsts)
    parts = []
    for c in firsts[:2 + rng._randbelow(3)]:
        w = c + rng.pick(["", "", "b", "q-", "a"])
        parts.append(("seq", [("lit", re.escape(x) if not x.isalnum() else x, x) for x in w]))
    kind = rng.pick(["cap", "nc"])
    return ("group", kind, ("alt", parts), None)


def gen_rep(rng, node, inside):
    """inside: this repeat is nested in another repeat.  Repeats of anything ambiguous stay small,
    because they make any backtracking matcher exponential."""
    if not inside and rng.chance(0.15):
        node = _words(rng)
        nested = False
    else:
        nested = not _single(node)
    if inside or nested:
        form = rng.pick(["?", "{n}", "{n,m}", "{,m}", "?", "{n,m}"])
        if _has_rep(node) and not inside and rng.chance(0.25):
            inner = ("group", "nc", _words(rng), None) if rng.chance(0.5) else ("digit",)
            node = ("group", "nc", ("seq", [("rep", inner, 2, 2, False, "{2}")]), None)
            form = "*+"[rng._randbelow(2)]
    else:
        form = rng.pick(["?", "*", "+", "{n}", "{n,m}", "{n,}", "{,m}", "{n,m}"])
    lazy = rng.chance(0.3)
    if form == "?":
        lo, hi, t = 0, 1, "?"
    elif form == "*":
        lo, hi, t = 0, None, "*"
    elif form == "+":
        lo, hi, t = 1, None, "+"
    elif form == "{n}":
        lo = hi = rng.pick([0, 1, 2, 3] if inside or nested else [0, 1, 2, 3, 5, 44, 33])
        t = "{%d}" % lo
    elif form == "{n,m}":
        lo = rng.pick([0, 0, 1, 2])
        hi = lo + rng.pick([0, 1, 1, 2])
        if rng.chance(0.15) and not (inside or nested):
            hi = rng.pick([43, 44, 45, 42, 32, 33, 31])
        t = "{%d,%d}" % (lo, hi)
    elif form == "{n,}":
        lo, hi = rng.pick([0, 1, 2, 3, 5]), None
        if rng.chance(0.2):
            lo = rng.pick([31, 32, 33, 40])
        t = "{%d,}" % lo
    else:
        lo, hi = 0, rng.pick([0, 1, 2, 3])
        t = "{,%d}" % hi
    return ("rep", node, lo, hi, lazy, t + ("?" if lazy else ""))


def gen_node(rng, depth, names, inside=False):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        k = rng.random()
        if k < 0.35:
            c = rng.pick(LITERALS)
            return ("lit", re.escape(c) if not c.isalnum() else c, c)
        if k < 0.5:
            t, c = rng.pick(ESCAPED)
            return ("lit", t, c)
        if k < 0.58:
            return ("any",)
        if k < 0.68:
            return ("digit",)
        if k < 0.78:
            return ("word",)
        return gen_class(rng)
    if r < 0.62:
        kind = rng.pick(["cap", "nc", "named"])
        name = None
        if kind == "named":
            name = "g%d" % len(names)
            names.append(name)
        return ("group", kind, gen_alt(rng, depth - 1, names, inside), name)
    if r < 0.9:
        inner = gen_node(rng, depth - 1, names, inside or rng.chance(0.6))
        if _rep_depth(inner) >= 2:
            return inner         # deeper towers make the matching oracle exponential
        if inner[0] in ("rep", "seq", "alt"):
            inner = ("group", "nc", inner, None)
        return gen_rep(rng, inner, inside)
    return gen_seq(rng, depth - 1, names, inside)


def gen_seq(rng, depth, names, inside):
    n = rng.pick([0, 1, 1, 2, 2, 3, 4])
    return ("seq", [gen_node(rng, depth, names, inside) for _ in range(n)])


def gen_alt(rng, depth, names, inside):
    if rng.chance(0.55):
        return gen_seq(rng, depth, names, inside)
    n = rng.pick([2, 2, 3, 3, 4, 4, 5, 6, 9])
    if rng.chance(0.3):   # common prefixes / single characters: sre optimises those
        pre = rng.pick(["a", "ab", ""])
        parts = [("seq", [("lit", c, c) for c in pre + rng.pick(["", "x", "yz", "a", "b"])])
                 for _ in range(n)]
        return ("alt", parts)
    return ("alt", [gen_seq(rng, depth, names, inside) for _ in range(n)])


def text(node):
    k = node[0]
    if k == "lit":
        return node[1]
    if k == "any":
        return "."
    if k == "digit":
        return "\\d"
    if k == "word":
        return "\\w"
    if k in ("class", "raw"):
        return node[1]
    if k == "group":
        pre = {"cap": "(", "nc": "(?:", "named": "(?P<%s>" % node[3]}[node[1]]
        return pre + text(node[2]) + ")"
    if k == "alt":
        return "|".join(text(x) for x in node[1])
    if k == "seq":
        return "".join(("(?:" + text(x) + ")") if x[0] == "alt" else text(x) for x in node[1])
    if k == "rep":
        return text(node[1]) + node[5]
    raise AssertionError(k)


def sample(node, rng, cap=4):
    k = node[0]
    if k == "lit":
        return node[2]
    if k == "any":
        return rng.pick([c for c in POOL if c != "\n"])
    if k == "digit":
        return rng.pick(string.digits + "٣")
    if k == "word":
        return rng.pick(string.ascii_letters + string.digits + "_é")
    if k == "class":
        cand = [c for c in POOL if re.fullmatch(node[1], c)]
        if not cand:
            cand = [c for c in map(chr, range(0x250)) if re.fullmatch(node[1], c)] or \
                [c for c in map(chr, range(0x400, 0x110000, 0x80)) if re.fullmatch(node[1], c)]
        return rng.pick(cand)
    if k == "group":
        return sample(node[2], rng, cap)
    if k == "alt":
        return sample(rng.pick(node[1]), rng, cap)
    if k == "seq":
        return "".join(sample(x, rng, cap) for x in node[1])
    if k == "rep":
        lo, hi = node[2], node[3]
        hi = lo + cap if hi is None else min(hi, lo + cap)
        return "".join(sample(node[1], rng, cap) for _ in range(lo + rng._randbelow(hi - lo + 1)))
    raise AssertionError(k)


def features(node, acc=None):
    """Construct names used, for coverage counters."""
    acc = set() if acc is None else acc
    k = node[0]
    if k == "rep":
        acc.add("rep:" + ("open" if node[3] is None else "bounded") + (":lazy" if node[4] else ""))
        features(node[1], acc)
    elif k == "group":
        acc.add("group:" + node[1])
        features(node[2], acc)
    elif k in ("alt", "seq"):
        acc.add(k)
        for x in node[1]:
            features(x, acc)
    elif k == "class":
        acc.add("class:neg" if node[1].startswith("[^") else "class")
    else:
        acc.add(k)
    return acc


def gen_pattern(rng, depth=3, anchors=True):
    """-> (pattern text, node); the node samples strings that the whole pattern matches."""
    for _ in range(50):
        names = []
        node = gen_alt(rng, depth, names, False)
        t = text(node)
        if anchors:
            pre = rng.weighted([(6, ""), (2, "^"), (1, "\\A")])
            post = rng.weighted([(6, ""), (2, "$"), (1, "\\Z")])
            if (pre or post) and node[0] == "alt":
                t = pre + "(?:" + t + ")" + post
            else:
                t = pre + t + post
        if len(t) > 300:
            continue
        try:
            re.compile(t)
        except (re.error, OverflowError):
            continue
        return t, node
    return "a", ("lit", "a", "a")


COUNTS = [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 500, 512, 999, 1000, 1024]


def huge_pattern(rng):
    """Long sequences, many branches, large counts: one dimension at a time."""
    f = rng.pick(["seq", "alt", "count", "groups", "class", "nest"])
    simple = lambda: rng.pick([("lit", "a", "a"), ("lit", "\\.", "."), ("digit",), ("word",), ("any",),
                               ("class", "[a-c]"), ("class", "[^a]"), ("lit", "\n", "\n")])
    if f == "seq":
        node = ("seq", [simple() for _ in range(rng.pick([30, 64, 100, 101, 150]))])
    elif f == "alt":
        node = ("alt", [("seq", [("lit", c, c) for c in "w%d" % i])
                        for i in range(rng.pick([10, 33, 64, 100]))])
    elif f == "groups":
        node = ("seq", [("group", rng.pick(["cap", "nc"]), simple(), None)
                        for _ in range(rng.pick([10, 33, 100, 101]))])
    elif f == "class":
        neg = rng.pick(["", "^"])
        node = ("class", "[%s%s]" % (neg, "".join(chr(0x100 + 2 * i)
                                                  for i in range(rng.pick([20, 64, 130])))))
    elif f == "nest":
        node = simple()
        for i in range(rng.pick([5, 8, 16, 30])):
            node = ("group", rng.pick(["cap", "nc"]), node, None)
            if rng.chance(.3):
                node = ("seq", [simple(), node])
    else:
        n = rng.pick(COUNTS)
        lo, hi, t = rng.pick([(n, n, "{%d}" % n), (n, None, "{%d,}" % n),
                              (n, n + 1, "{%d,%d}" % (n, n + 1)), (0, n, "{,%d}" % n),
                              (n - 1, n + 9, "{%d,%d}" % (n - 1, n + 9)), (1, n, "{1,%d}" % n)])
        lazy = rng.chance(.2)
        node = ("rep", simple(), lo, hi, lazy, t + ("?" if lazy else ""))
        if rng.chance(.4):
            node = ("seq", [("lit", "x", "x"), node, ("lit", "y", "y")])
    t = text(node)
    if node[0] != "alt":
        t = rng.pick(["", "", "^"]) + t + rng.pick(["", "", "$"])
    return t, node
