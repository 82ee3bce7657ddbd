"""Regex generation yields a full match or refuses loudly, for every RNG outcome."""
import functools
import itertools
import re
import signal

import d42
from d42.generation import Random, RegexGenerator

from ..monitor import Skip
from .. import alike, common as C, regexgen as rg, sched

CASES = {"quick": 46800, "thorough": 1500000}
EVALUATIONS = "generated"
MIN = {"generated": 200000, "patterns": 22000, "unsupported_cases": 5000,
       "unsupported_refused": 20000, "validated": 60000, "draws": 500000}
RULE = ("one evaluation = one string generated for one pattern under one RNG schedule (all-min, "
        "all-max, alternating, extreme/random mixtures, depth-first enumeration of the draw tree), "
        "checked with re.fullmatch; through RegexGenerator with several max_repeat values and "
        "through fake(schema.str.regex(p)), then validated; patterns with an unsupported construct "
        "embedded anywhere must raise or still match; distinct_nontrivial counts distinct "
        "(pattern, schedule kind)")
ASSUMPTIONS = ["patterns are drawn from the grammar in the property; \\b and anchors "
               "in the middle of a pattern are not generated; inline flags only "
               "around literals, positive classes and dots"]

BACKREFS = ["(a)\\1", "(a|b)\\1", "(?P<r>[ab])(?P=r)", "([a-c]+)-\\1", "(x)?(?(1)y|z)",
            "(\\d)(\\w)\\2\\1", "(?:(a)|b)\\1", "([ab])\\1*", "(\\w)\\1{3}", "(?P<q>\\d)x(?P=q)?"]


def entries(rng):
    """-> [(label, fn(pattern) -> string)]"""
    out = [("schema", lambda p: d42.fake(d42.schema.str.regex(p)))]
    k = rng.pick([None, 0, 1, 2, 5, 44, 100])
    r = Random()
    g = RegexGenerator(r) if k is None else RegexGenerator(r, max_repeat=k)
    out.append(("RegexGenerator(max_repeat=%s)" % k, g.generate))
    return out


class TooSlow(Exception):
    pass


def _too_slow(signum, frame):
    raise TooSlow()


def matches(m, full, x):
    """re.fullmatch with a budget: a matcher that backtracks exponentially decides nothing."""
    signal.signal(signal.SIGALRM, _too_slow)
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        return full.fullmatch(x) is not None
    except TooSlow:
        m.count("match_timeouts")
        raise Skip("matching takes too long")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def check(m, rng, pattern, supported, dfs=0):
    m.count("patterns" if supported else "unsupported_cases")
    full = re.compile(pattern)
    for label, fn in entries(rng):
        for schedule in sched.schedules(rng, 2, dfs):
            w = dict(pattern=pattern, via=label, rng=schedule.mode,
                     script=list(schedule.script))
            with sched.scheduled(schedule):
                out = m.attempt("generate", fn, pattern)
            m.count("draws", schedule.draws)
            if not out.ok:
                if supported:
                    m.fail("generation of a supported pattern raised %s"
                           % type(out.exc).__name__, error=str(out.exc), **w)
                m.count("unsupported_refused")
                continue
            x = out.value
            m.count("generated")
            m.count("mode:" + schedule.mode)
            if not isinstance(x, str):
                m.fail("generation returned %r" % type(x).__name__, **w)
            if len(x) < 20000 and not matches(m, full, x):
                m.fail("the generated string does not match the whole pattern", generated=x, **w)
            m.distinct(pattern, schedule.mode)
            if label == "schema" and supported:
                m.count("validated")
                if not C.verdict(m, d42.schema.str.regex(pattern), x, **w):
                    m.fail("the generated string is rejected by schema.str.regex(pattern)",
                           generated=x, **w)


def embed(rng, node):
    """Insert an unsupported construct somewhere; -> text or None."""
    raw = ("raw", rng.pick(rg.UNSUPPORTED if rng.chance(.75) else BACKREFS))
    t = rg.text(splice(rng, node, raw))
    try:
        re.compile(t)
    except (re.error, OverflowError):
        return None
    return t


def splice(rng, node, raw):
    k = node[0]
    r = rng.random()
    if k == "seq":
        items = list(node[1])
        if items and r < 0.6:
            i = rng._randbelow(len(items))
            items[i] = splice(rng, items[i], raw)
        else:
            items.insert(rng._randbelow(len(items) + 1), raw)
        return ("seq", items)
    if k == "alt":
        items = list(node[1])
        i = rng._randbelow(len(items))
        items[i] = splice(rng, items[i], raw)
        return ("alt", items)
    if k == "group":
        return ("group", node[1], splice(rng, node[2], raw), node[3])
    if k == "rep" and r < 0.5:
        inner = splice(rng, node[1], raw)
        return ("rep", ("group", "nc", inner, None)) + node[2:]
    return ("seq", [node, raw] if r < 0.5 else [raw, node])


def case(m, rng, idx):
    if rng.chance(.03):
        m.count("huge")
        t, node = rg.huge_pattern(rng)
        m.sample(t)
        check(m, rng, t, True)
        return
    t, node = rg.gen_pattern(rng, rng.pick([1, 2, 2, 3, 3, 4]))
    for f in rg.features(node):
        m.count("feature:" + f)
    m.sample(t)
    if rng.chance(0.3):
        u = embed(rng, node)
        if u is None or len(u) > 300:
            return
        check(m, rng, u, False)
        return
    if node[0] == "alt" and rng.chance(0.2) and t == rg.text(node):
        # anchors at both ends of every branch
        t = "|".join(rng.pick(["", "^", "\\A"]) + rg.text(x) + rng.pick(["", "$", "\\Z"])
                     for x in node[1])
    check(m, rng, t, True, (12 if m.tier == "quick" else 150) if rng.chance(.4) else 0)


ATOMS = ["a", ".", "\\d", "\\w", "[a-c]", "[^a]", "[^a-c]", "[\\d_]", "[^\\w]", "[^ -~]", "[a\\-z]",
         "[]a]", "[^]a]", "[a^]", "\\.", "\\n", "(a|b)", "(?:a|)", "(?P<n>ab)", "[0-9A-F]",
         "[^\\d]", "[!-/]", "()", "[^-a]", "[-a]", "é", "[à-ü]", "\\x41", "\\t", "[\\]\\\\]",
         "[^\\]\\\\]", "(?:(?:a))", "[a-a]", "[^\\n]", "[^0-9a-zA-Z]", "(a|bc|def)", "|a"]
QUANTS = ["", "?", "*", "+", "{0}", "{1}", "{2}", "{3}", "{0,1}", "{1,2}", "{2,}", "{0,}", "{,2}",
          "{44}", "{43}", "{45}", "{33,}", "{32}", "{40,50}", "{44,44}", "{0,44}", "{44,}",
          "{44,45}", "{43,44}"]


def d_products(m, rng):
    """Every atom with every quantifier, greedy and lazy, with and without anchors."""
    for atom, q in itertools.product(ATOMS, QUANTS):
        a = atom if len(atom) == 1 or not q or atom[0] in "([\\" and "|" != atom[0] \
            else "(?:" + atom + ")"
        if atom in ("(?:a|)", "|a") and any(c in q for c in "*+345"):
            continue     # ambiguous and large: exponential for any backtracking matcher
        for p in {a + q, a + q + ("?" if q else ""), "^" + a + q + "$" if atom != "|a" else a}:
            try:
                re.compile(p)
            except re.error:
                continue
            check(m, rng, p, True)


def d_counts(counts, m, rng):
    """Large counts, around every power of two and every round number up to 5000."""
    for n in counts:
        for atom in ("a", "[ab]", "."):
            for q in ("{%d}" % n, "{%d,}" % n, "{%d,%d}" % (n, n), "{%d,%d}" % (n, n + 3),
                      "{,%d}" % n, "{%d}?" % n):
                for p in (atom + q, "^x" + atom + q + "y$"):
                    check(m, rng, p, True)


LARGE = rg.COUNTS + [2000, 2047, 2048, 2049, 4096, 5000]


def d_unsupported(m, rng):
    for u in rg.UNSUPPORTED + BACKREFS:
        for pre, post in itertools.product(["", "a", "(?:x|y)*", "[ab]+", "^"], ["", "b", "z?", "$"]):
            p = pre + u + post
            try:
                re.compile(p)
            except re.error:
                continue
            check(m, rng, p, False)
        for p in ("(?:%s|b)" % u, "(%s)?" % u, "(?:a(?:%s))*" % u, "(?:b|%s)+?" % u):
            try:
                re.compile(p)
            except re.error:
                continue
            check(m, rng, p, False)


PRINTABLE = "".join(map(chr, range(32, 127)))
SPECIAL_CASE = ["ß", "ı", "İ", "ſ", "ﬁ", "ς", "K", "Å", "ǆ", "ŉ", "ΐ", "ẞ", "µ", "ÿ"]


def member(rng, c):
    """One letter as a member of a class."""
    if c in "\\]^-[":
        return "\\" + c
    return rng.pick([c, c, c, "\\x%02x" % ord(c), "\\u%04x" % ord(c)] +
                    (["\\" + c] if not c.isalnum() and c != "_" else []))


def d_crowded(m, rng):
    """Negated classes that leave one to three letters, in many spellings and orders."""
    for i in range(700):
        m.count("crowded_classes")
        left = set(rng.sample(PRINTABLE, rng.pick([1, 1, 2, 3])))
        spelled = []
        chunk = ""
        gone = [c for c in PRINTABLE if c not in left]
        style = rng.pick(["letters", "ranges", "categories"])
        if style == "categories" and not any(c.isalnum() or c == "_" for c in left):
            spelled.append("\\w")
            gone = [c for c in gone if not (c.isalnum() or c == "_")]
        elif style == "categories" and not any(c.isdigit() for c in left):
            spelled.append("\\d")
            gone = [c for c in gone if not c.isdigit()]
        if style == "ranges":
            for c in gone + ["\xff"]:
                if chunk and ord(c) != ord(chunk[-1]) + 1:
                    spelled.append(member(rng, chunk[0]) if len(chunk) == 1 else
                                   member(rng, chunk[0]) + "-" + member(rng, chunk[-1]))
                    chunk = ""
                chunk += c
        else:
            spelled += [member(rng, c) for c in gone]
        rng.shuffle(spelled)
        if rng.chance(.3) and " " not in left and style == "letters":
            spelled = [" "] + spelled if rng.chance(.5) else spelled + [" "]
        p = "[^" + "".join(spelled) + "]" + rng.pick(["", "", "+", "{2}", "a", "?"])
        check(m, rng, p, True)


def d_edges(part, m, rng):
    """Negated classes that reach the ends of blocks and of the whole character set."""
    picks = ["\x00", "\t", " ", "/", "0", "9", ":", "A", "Z", "_", "a", "z", "~", "\x7f", "\x80", "\xa9", "\xb2",
             "\xff", "\u0130", "\u0400", "\u0660", "\u0669", "\u2028", "\ud800", "\uffff", "\U00010000",
             "\U0001d7ff", "\U0001f600", "\U0010fffe", "\U0010ffff"]
    ends = [ord(c) for c in picks][part::10]

    def esc(n):
        return "\\U%08x" % n

    def once(p, some):
        for name in ("edge_classes", "patterns", "validated"):
            m.count(name)
        out = m.attempt("generate", rng.pick([lambda: d42.fake(d42.schema.str.regex(p)),
                                              lambda: RegexGenerator(Random()).generate(p)]))
        if not out.ok:
            if some:
                m.fail("generation of a supported pattern raised %s" % type(out.exc).__name__,
                       error=str(out.exc), pattern=p)
            return
        m.count("generated")
        if not isinstance(out.value, str) or not matches(m, re.compile(p), out.value):
            m.fail("the generated string does not match the whole pattern", generated=out.value,
                   pattern=p)
        m.distinct(p, "edge")

    for n in ends:
        for cat in ("", rng.pick(["\\w", "\\d", "_", "\\d_"])):
            above = "[^\\x00-%s%s]" % (esc(n), cat)
            below = "[^%s%s-\\U0010ffff]" % (cat, esc(n))
            hole = "[^%s%s%s]" % ("\\x00-" + esc(n - 1) if n else "", cat,
                                  esc(n + 1) + "-\\U0010ffff" if n < 0x10ffff else "")
            for p in (above, below, hole):
                full = re.compile(p)
                some = [c for c in map(chr, range(n + 1 if p == above else 0,
                                                  n if p == below else min(0x110000, n + 3000)))
                        if full.match(c)] if p != hole else [chr(n)] * bool(full.match(chr(n)))
                # a class that leaves nothing has no matching text
                once(p + rng.pick(["", "", "x"]), bool(some))


def d_flags(m, rng):
    """Groups with inline flags around what matches whatever the flags (literals, positive
    classes without neighbours in case, dots)."""
    words = ["a", "Ab", "stra" + "ß" + "e", "x1", "é", "Ж"] + SPECIAL_CASE + \
        [a + b for a in "aZ" for b in SPECIAL_CASE]
    for w in words:
        for p in ("(?i:%s)" % w, "(?i:%s)+" % w, "x(?i:%s|b)y" % w, "(?i)%s" % w, "((?i:%s){2})" % w,
                  "(?i:[%s])" % w[-1], "(?s:%s.)" % w, "(?m:^%s$)" % w, "(?x: %s )" % w,
                  "(?x: [%s] \\ # comment\n )" % w[-1], "(?a:%s\\d)" % w, "(?u:%s\\w)" % w,
                  "(?-i:%s)" % w, "(?i-s:%s)" % w, "(?s)%s." % w, "(?ims:%s)" % w):
            check(m, rng, p, True)
    for f in ("i", "s", "m", "x", "a", "u", "ims", "-i", "i-s", "-x"):
        for p in ("(?%s:)", "(?%s:)?", "(?%s:)*", "(?%s:){3}", "a(?%s:)?b", "(?%s:a|)", "(?%s:|a)", "(?%s:a)?",
                  "(?%s:a)*?b", "((?%s:)|b)", "(?:(?%s:a)){2,}", "(?%s:(?%s:a)b)", "(?%s:a(b|c)d)e?",
                  "(?%s:(?P<n>[ab])+)", "^(?%s:a)$", "x|(?%s:)", "(?%s:a?)?", "(?%s:[ab]{2}c)+"):
            check(m, rng, p.replace("%s", f), True)


def d_branches(m, rng):
    """Two to twelve alternatives, empty ones at any place, alone and inside other constructs."""
    words = ["ab", "abc", "b", "xyz", "[a-c]d", "\\d\\d", "(?:p|q)r", "a", "ab?c", "\\.x", "é1",
             "a{2}b", "[^a]z", "w\\w", "()k", "(l)(m)"]
    for n in range(2, 13):
        for empty in ([], [0], [n - 1], [n // 2], [0, n - 1], [0, 1]):
            for same in (False, True):
                parts = rng.sample(words, n) if not same else \
                    [c + rng.pick(["", "x", "yz"]) for c in "aabbccddeeff"[:n]]
                for i in empty:
                    parts[i] = ""
                alt = "|".join(parts)
                for p in ("(?:%s)", "(%s)z", "x(?P<n>%s)", "(?:%s){2}", "^(?:%s)$", "(?:%s)?",
                          "%s", "((%s)|k)"):
                    m.count("branches")
                    check(m, rng, p % alt, True, n + 1)


def d_alike(m, rng):
    """Patterns of equal heads, tails, sizes and letters, one after another, through the global
    generator, one that serves them all and fresh ones."""
    one = RegexGenerator(Random())
    for _, p in alike.families(m, rng, 60, alike.patterns):
        check(m, rng, p, True)
        x = m.call("generate", one.generate, p)
        m.count("generated")
        if not matches(m, re.compile(p), x):
            m.fail("the generated string does not match the whole pattern", generated=x, pattern=p,
                   via="one RegexGenerator for many patterns")


DIRECTED = [d_alike] * 8 + [d_branches, d_products, d_unsupported, d_crowded, d_crowded, d_flags] + [
    functools.partial(d_edges, i) for i in range(10)] + [
    functools.partial(d_counts, LARGE[i::12]) for i in range(12)]
