"""What patterns find, independent of the re module: flags, anchors, classes, letters beyond ASCII."""

REGEXES = [
    # (pattern, texts in which it is found, texts in which it is not)
    ("(?i)^\u212a$", ["k", "K", "\u212a"], ["x", "kk", ""]),
    ("(?i)^k$", ["k", "K", "\u212a"], ["x", "q"]),
    ("(?i)^\u017f$", ["s", "S", "\u017f"], ["f", "ss"]),
    ("(?i)^stra\u00dfe$", ["stra\u00dfe", "STRA\u1e9eE"], ["strasse", "STRASSE"]),
    ("(?i:a)B", ["aB", "AB", "xABx"], ["ab", "Ab", "AX"]),
    ("(?u)^\\w+$", ["ab", "\u00e9", "\u0436a"], ["", "a b", "-"]),
    ("(?a)^\\w+$", ["ab", "a1_"], ["\u00e9", "a\u0436"]),
    ("^\\w$", ["a", "\u00e9", "\u0436", "\u0663", "_"], ["-", " ", "\u2028", ""]),
    ("^\\d$", ["1", "\u0663", "\uff11"], ["a", "\u00b2", "\u2160", ""]),
    ("^\\s$", [" ", "\t", "\x1c", "\x85", "\u2028", "\u3000"], ["a", "", "\u200b"]),
    ("(?s)^.$", ["\n", "a"], ["", "ab"]), ("^.$", ["a", "a\n", "\r", "\u2028"], ["\n", "", "\na"]),
    ("(?m)^b$", ["a\nb", "b", "b\na", "a\nb\nc"], ["ab", "a\rb", "a b", "bb\n"]),
    ("^b$", ["b", "b\n"], ["a\nb", "b\na", "b\n\n"]), ("^b\\Z", ["b"], ["b\n", "a\nb"]),
    ("\\Ab", ["b", "bc"], ["a\nb", "ab"]), ("(?m)\\Ab", ["b"], ["a\nb"]),
    ("(?x) a b # c\n d", ["abd", "xabdx"], ["a b", "ab", " a b d"]),
    ("a b#c", ["a b#c"], ["ab", "a b"]), ("", ["", "x", "\n"], []), ("^$", ["", "\n"], ["a", "\n\n"]),
    ("a|b", ["a", "b", "xb"], ["c", ""]), ("^a|b$", ["ax", "xb", "b\n"], ["xa", "bx"]),
    ("(a)(b)?\\1", ["aa", "aba"], ["ab", "a"]), ("(?P<n>.)(?P=n)", ["aa", "xbb"], ["ab", "a"]),
    ("(?<=a)b", ["ab"], ["b", "cb"]), ("(?<!a)b", ["b", "cb"], ["ab"]),
    ("a(?=b)", ["ab"], ["a", "ac"]), ("a(?!b)", ["a", "ac"], ["ab"]),
    ("\\bcat\\b", ["cat", "a cat.", "cat-x"], ["cats", "\u00e9cat", "cat_"]),
    ("\\Bcat", ["xcat"], ["cat", " cat"]), ("[\u0430-\u044f]", ["\u0436"], ["\u0416", "z"]),
    ("(?i)[\u0430-\u044f]", ["\u0436", "\u0416"], ["z"]), ("[^a]", ["b", "ab", "\n"], ["", "a", "aaa"]),
    ("\u00e9", ["\u00e9", "caf\u00e9"], ["e\u0301", "e", "\u00c9"]), ("\\.", ["."], ["a", "", "\\"]),
    ("\\\\", ["\\"], ["/", ""]), ("\\n", ["\n"], ["n", "\\n"]), ("\\x41", ["A"], ["x41", "a"]),
    ("^.{3}$", ["abc", "\U0001f600bc"], ["ab", "abcd"]), ("\\0", ["\x00"], ["0", ""]),
    ("(?:)", ["", "a"], []), ("x*", ["", "y"], []), ("^x*?y", ["y", "xxy"], ["x", "zy"]),
    ("^(?:a+)+$", ["a", "aaa"], ["", "ab", "b"]), ("a++a", [], ["aa", "a", "aaa"]),
    ("(?>a|ab)c", ["ac"], ["abc", "c"][1:]), ("%s", ["%s"], ["x", "%"]), ("^{}$", ["{}"], ["", "x"]),
]


def cases():
    """-> [(schema, value, whether the value conforms)] for every row, alone and inside containers."""
    import d42
    S = d42.schema
    for p, yes, no in REGEXES:
        b = S.str.regex(p)
        for v, want in [(x, True) for x in yes] + [(x, False) for x in no]:
            for c, x in ((b, v), (S.list([b]), [v]), (S.dict({"k": b, ...: ...}), {"k": v}),
                         (S.any(S.int, b), v), (S.any(S.list(b), S.none), [v]), (S.alias("P", b), v)):
                yield c, x, want
