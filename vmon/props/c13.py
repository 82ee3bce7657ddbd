"""Schema combinators mean what their parts mean."""
import d42
from d42.utils import make_required

from .. import common as C, sched, spec as sp, values
from ..spec import Spec

CASES = {"quick": 52000, "thorough": 1200000}
EVALUATIONS = "verdicts"
MIN = {"verdicts": 250000, "accepted": 60000, "rejected": 60000, "generated": 40000,
       "unions": 6000, "sums": 6000, "required": 4000, "aliases": 2000, "members": 30000}
RULE = ("one evaluation = one verdict of a combined schema compared with the combination of its "
        "operands' verdicts (union: or; make_required: operand and presence; alias: target) and "
        "with the reference model (sums: key tables merged, right operand wins, relaxed if either "
        "is); values conform to either operand, to the combination, to mixtures of both, or are "
        "perturbed; generated values, d[key], keys() and iteration are compared with the declared "
        "members; distinct_nontrivial counts distinct (combination text, value text)")
ASSUMPTIONS = ["schema.dict without declared keys is not used as an operand of + (declared dict "
               "schemas only)"]


# keys that differ, but look alike once printed, normalised, folded or converted
TWINS = [[1, "1", b"1", (1,), "1 ", "01"], [None, "None", "", "null"], ["a", "A", "a ", " a", b"a", ("a",)],
         ["a", "a.b", "a_b", "a-b", "b"], ["\u00e9", "e\u0301", "e", "E\u0301"], ["", " ", "\x00", "\u200b", ()],
         [0, -1, "0", "-1", ("0",), frozenset()], [1.5, "1.5", (1.5,), 15], ["...", "Nil", "optional", "keys"],
         ["k", "\u212a", "K", "\uff4b"], ["ss", "\u00df", "SS"], [(1, 2), "(1, 2)", (2, 1), frozenset({1, 2})]]


def mixtures(rng, ns, comb):
    """Values around the operands ns and the combination comb (all normalised)."""
    out = []
    for n in ns:
        if sp.sat(n):
            v = sp.sample(n, rng)
            out += [v, values.perturb(v, rng)[1]]
            out += C.drop_each_key(v, 2)
    if sp.sat(comb):
        for _ in range(2):
            v = sp.sample(comb, rng)
            out += [v, values.perturb(v, rng)[1], values.perturb(v, rng)[1]]
            out += C.drop_each_key(v, 4)
            out += C.rename_keys(v, rng, 2)
        out += C.probe_values(comb, rng, 3, zoo=True)
    ds = [v for v in out if type(v) is dict]
    for _ in range(3):
        if len(ds) >= 2:
            a, b = rng.pick(ds), rng.pick(ds)
            out.append({**a, **b})
    if ds:
        d = rng.pick(ds)
        out.append({**d, "zz": None})
    return out


def generated(m, rng, b, w, oracle):
    for schedule in (sched.Schedule("min"), sched.Schedule("max"), sched.Schedule("ext", rng),
                     sched.Schedule("rand", rng)):
        x = C.fake(m, b, schedule, **w)
        m.count("generated")
        bad = oracle(x)
        if bad:
            m.fail("a generated value is not accepted by %s" % bad, generated=x, **w)


def verdicts(m, rng, b, comb, vals, w, expected):
    """expected(v) -> verdict derived from the operands, or None."""
    for v in vals:
        m.count("verdicts")
        got = C.verdict(m, b, v, **w)
        m.count("accepted" if got else "rejected")
        m.distinct(w["schema"], sp.vrepr(v))
        want = expected(v)
        if want is not None and got != want:
            m.fail("the combination %s a value its parts %s" %
                   (("accepts", "reject") if got else ("rejects", "accept")), value=v, **w)
        if comb is not None and got != sp.conforms(comb, v):
            m.fail("the combination %s a value against its meaning" %
                   ("accepts" if got else "rejects"), value=v, **w)


def build2(m, s):
    return m.build(s, C.env())


def case(m, rng, idx):
    g = C.gen(rng, nan=rng.chance(.05), max_width=4)
    what = rng.weighted([(3, union), (3, add), (2, required), (1, alias), (1, members)])
    what(m, rng, g)


def flat(s):
    """The alternatives of a declared any/or, nested unions expanded (aliases are not)."""
    if s.kind == "or":
        return flat(s.a["left"]) + flat(s.a["right"])
    if s.kind == "any" and s.has("alts"):
        return [y for x in s.a["alts"] for y in flat(x)]
    return [s]


def union(m, rng, g):
    m.count("unions")
    parts = [g.gen(rng.pick([0, 1, 1, 2])) for _ in range(rng.pick([2, 2, 3, 4]))]
    if rng.chance(.2):
        parts.append(parts[0])
    bs = [build2(m, x) for x in parts]
    subs = False
    if rng.chance(0.15):
        i = rng._randbelow(len(bs))
        n = sp.norm(parts[i])
        if sp.sat(n):
            out = m.attempt("substitute", d42.substitute, bs[i], sp.sample(n, rng))
            if out.ok:
                bs[i] = out.value
                subs = True
    # a random tree over the operands
    items = list(zip(parts, bs))
    while len(items) > 1:
        i = rng._randbelow(len(items) - 1)
        form = rng.pick(["or", "any", "any3", "alias"])
        if form == "any3" and len(items) - i >= 3:
            xs = items[i:i + 3]
            new = (Spec("any", alts=[x for x, _ in xs]), d42.schema.any(*[b for _, b in xs]))
            items[i:i + 3] = [new]
        elif form == "alias":
            s, b = items[i]
            if s.kind == "alias":
                continue
            items[i] = (Spec("alias", name="U", target=s), d42.schema.alias("U", b))
        else:
            (s1, b1), (s2, b2) = items[i], items[i + 1]
            new = (Spec("or", left=s1, right=s2), b1 | b2) if form == "or" else \
                (Spec("any", alts=[s1, s2]), d42.schema.any(b1, b2))
            items[i:i + 2] = [new]
    s, b = items[0]
    comb = sp.norm(s)
    w = dict(schema=sp.describe(s), built=C.d42_repr(b))
    m.sample(sp.describe(s))
    ns = [sp.norm(x) for x in parts]
    vals = mixtures(rng, ns, comb)
    verdicts(m, rng, b, None if subs else comb, vals, w,
             lambda v: any([C.verdict(m, x, v, **w) for x in bs]))
    if sp.sat(comb):
        generated(m, rng, b, w, lambda x: None if any(C.verdict(m, y, x, **w) for y in bs)
                  else "any operand")
    if not subs and s.kind != "alias":
        alts = flat(s)
        got = list(m.call("iterate", lambda: list(b), witness=w))
        want = [build2(m, x) for x in alts]
        m.count("members", len(got))
        if len(got) != len(want) or any(x != y for x, y in zip(got, want)):
            m.fail("iteration does not expose the declared alternatives",
                   got=[C.d42_repr(x) for x in got], want=[C.d42_repr(x) for x in want], **w)


def table_of(comb):
    return {key: (sub, opt) for key, sub, opt in comb.a.get("keys", [])}


def check_members(m, b, comb, w, raw=None):
    """d[key], keys(), iteration against the declared table."""
    table = table_of(comb)
    ks = m.call("keys", lambda: list(b.keys()), witness=w)
    it = m.call("iterate", lambda: list(b), witness=w)
    want = set(table) | ({...} if comb.get("relaxed") else set())
    if set(ks) != want or len(ks) != len(want):
        m.fail("keys() does not expose the declared keys", got=ks, want=list(table), **w)
    if set(it) != want or len(it) != len(want):
        m.fail("iteration does not expose the declared keys", got=it, want=list(table), **w)
    for key, (sub, _) in (raw or table).items():
        m.count("members")
        got = m.call("getitem", lambda: b[key], witness=dict(w, key=sp.vrepr(key)))
        want_b = build2(m, sub)
        if got != want_b or not (want_b == got):
            m.fail("d[key] is not the declared member schema", key=key, got=C.d42_repr(got),
                   want=C.d42_repr(want_b), **w)
    for key in ("no such key", ..., ("no",)):
        if key in table:
            continue
        out = m.attempt("getitem", lambda: b[key])
        if out.ok or not isinstance(out.exc, KeyError):
            m.fail("d[undeclared key] did not raise KeyError", key=key,
                   outcome=C.d42_repr(out.value) if out.ok else type(out.exc).__name__, **w)


def raw_table(s):
    """key -> the (unnormalised) member spec of a declared dict / sum / make_required."""
    if s.kind == "dict":
        return {k: (x, o) for k, x, o in s.a.get("keys", [])}
    if s.kind == "add":
        return {**raw_table(s.a["left"]), **raw_table(s.a["right"])}
    if s.kind == "req":
        return raw_table(s.a["base"])
    raise AssertionError(s.kind)


def dict_operand(rng, g, depth):
    d = g.g_dict(depth, untyped=False)
    return d if sp.sat(sp.norm(d)) else Spec("dict", keys=[])


def add(m, rng, g):
    m.count("sums")
    pool = rng.pick([["a", "b", "c"], ["a", "b", "c", "d", "e"], values.KEYS, rng.pick(TWINS)])
    g.o["keypool"] = pool
    parts = [dict_operand(rng, g, rng.pick([1, 1, 2])) for _ in range(rng.pick([2, 2, 3]))]
    parts = [x if rng.chance(.85) else Spec("req", base=x, names=None) for x in parts]
    s = parts[0]
    for p in parts[1:]:
        s = Spec("add", left=s, right=p)
    if len(parts) == 3 and rng.chance(.5):
        s = Spec("add", left=parts[0], right=Spec("add", left=parts[1], right=parts[2]))
    b = build2(m, s)
    comb = sp.norm(s)
    w = dict(schema=sp.describe(s), built=C.d42_repr(b))
    m.sample(sp.describe(s))
    direct = build2(m, comb)
    vals = mixtures(rng, [sp.norm(p) for p in parts], comb)
    verdicts(m, rng, b, comb, vals, w, lambda v: C.verdict(m, direct, v, **w))
    generated(m, rng, b, w, lambda x: None if sp.conforms(comb, x) else "the merged declaration")
    check_members(m, b, comb, w, raw_table(s))
    if rng.chance(.3):
        n = s
        names = [k for k, _, o in comb.a["keys"] if rng.chance(.5)]
        r = Spec("req", base=n, names=names)
        rb = m.call("make_required", make_required, b, names, witness=w)
        rc = sp.norm(r)
        w2 = dict(schema=sp.describe(r), built=C.d42_repr(rb))
        verdicts(m, rng, rb, rc, vals, w2,
                 lambda v: C.verdict(m, b, v, **w) and all(k in v for k in names))


def required(m, rng, g):
    m.count("required")
    if rng.chance(.25):
        g.o["keypool"] = rng.pick(TWINS)
    base = g.g_dict(rng.pick([1, 1, 2, 3]), untyped=rng.chance(.3))
    n = sp.norm(base)
    if not sp.sat(n):
        return
    b0 = build2(m, base)
    nn = n
    if rng.chance(.15):
        out = m.attempt("substitute", d42.substitute, b0, C.partial(sp.sample(n, rng), rng))
        if out.ok:
            b0, nn = out.value, None
    names = None
    declared = [k for k, _, _ in base.a.get("keys", [])]
    if rng.chance(.7):
        names = [k for k in declared if rng.chance(.5)]
        kind = rng.pick([list, tuple, set, list])
        arg = kind(names)
        if kind is list and base.get("relaxed") and rng.chance(.2):
            arg.append(...)
    r = Spec("req", base=base, names=names)
    w = dict(schema=sp.describe(r))
    b = m.call("make_required", (lambda: make_required(b0, arg)) if names is not None
               else (lambda: make_required(b0)), witness=w)
    w["built"] = C.d42_repr(b)
    m.sample(sp.describe(r))
    comb = sp.norm(r)
    must = declared if names is None else names
    vals = mixtures(rng, [n], comb)
    verdicts(m, rng, b, comb if nn is not None else None, vals, w,
             lambda v: C.verdict(m, b0, v, **w) and (not must or all(k in v for k in must)))
    generated(m, rng, b, w, lambda x: None if C.verdict(m, b0, x, **w) and
              all(k in x for k in must) else "the original with the keys present")
    if nn is not None:
        check_members(m, b, comb, w, raw_table(base))
    # a mutated key list has no effect afterwards
    if names is not None and isinstance(arg, list):
        arg.clear()
        for v in vals[:4]:
            if C.verdict(m, b, v, **w) != (C.verdict(m, b0, v, **w) and
                                           (not must or all(k in v for k in must))):
                m.fail("clearing the key list changed the schema", value=v, **w)


def alias(m, rng, g):
    m.count("aliases")
    t = g.gen(rng.pick([0, 1, 2, 3]))
    n = sp.norm(t)
    bt = build2(m, t)
    b, s = bt, t
    for _ in range(rng.pick([1, 1, 2])):
        b = m.call("alias", d42.schema.alias, rng.pick(["A", "", "x y", "é"]), b)
        s = Spec("alias", name="A", target=s)
    pos = rng.pick(["alone", "elem", "elems", "dict", "any"])
    w = dict(schema="%s of %s" % (pos, sp.describe(s)))
    one = Spec("list", elems=[n])
    if pos == "elem":
        b, bt, comb = d42.schema.list(b), d42.schema.list(bt), Spec("list", elem=n)
    elif pos == "elems":
        b, bt, comb = d42.schema.list([..., b]), d42.schema.list([..., bt]), \
            one.with_(head=True)
    elif pos == "dict":
        b, bt = d42.schema.dict({"k": b}), d42.schema.dict({"k": bt})
        comb = Spec("dict", keys=[("k", n, False)])
    elif pos == "any":
        b, bt = d42.schema.any(b, d42.schema.none), d42.schema.any(bt, d42.schema.none)
        comb = Spec("any", alts=[n, Spec("none")])
    else:
        comb = n
    w["built"] = C.d42_repr(b)
    verdicts(m, rng, b, comb, mixtures(rng, [n], comb), w, lambda v: C.verdict(m, bt, v, **w))
    if sp.sat(comb):
        generated(m, rng, b, w, lambda x: None if C.verdict(m, bt, x, **w) else "the target")


def members(m, rng, g):
    if rng.chance(.25):
        g.o["keypool"] = rng.pick(TWINS)
    s = g.g_dict(rng.pick([1, 2, 3]))
    b = build2(m, s)
    w = dict(schema=sp.describe(s), built=C.d42_repr(b))
    check_members(m, b, sp.norm(s), w, raw_table(s))
    a = g.g_any(2)
    b = build2(m, a)
    got = list(b)
    want = [build2(m, x) for x in flat(a)] if a.has("alts") else []
    m.count("members", len(got))
    if len(got) != len(want) or any(x != y for x, y in zip(got, want)):
        m.fail("iteration does not expose the declared alternatives", schema=sp.describe(a),
               got=[C.d42_repr(x) for x in got])


def d_scale(m, rng):
    """Combinations of many members: unions, sums and make_required over wide operands."""
    S = d42.schema
    for n in (9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 513, 1000):
        ks = [rng.pick(["k%d", "K%d", " %d"]) % i for i in range(n)]
        subs = [rng.pick([Spec("int", value=i), Spec("str", value="s%d" % i), Spec("int", min=i)])
                for i in range(n)]
        opts = [rng.chance(.5) for _ in ks]
        left = Spec("dict", keys=list(zip(ks, subs, opts)))
        cut = rng.pick([0, 1, n // 2, n - 1])
        right = Spec("dict", keys=[(k, rng.pick(subs), rng.chance(.5)) for k in ks[cut:]] +
                     [("new%d" % i, Spec("none"), rng.chance(.5)) for i in range(rng.pick([0, 1, n]))],
                     **({"relaxed": True} if rng.chance(.3) else {}))
        for s in (Spec("add", left=left, right=right), Spec("add", left=right, right=left)):
            b, comb = build2(m, s), sp.norm(s)
            w = dict(schema="sum of dicts with %d and %d keys" % (n, len(right.a["keys"])))
            v = sp.sample(comb, rng)
            vals = [v] + [values.perturb(v, rng)[1] for _ in range(6)] + \
                [{x: y for x, y in v.items() if x != k} for k in (ks[0], ks[-1], ks[n // 2], rng.pick(ks))] + \
                [{**v, k: 0.5} for k in (ks[0], ks[-1], rng.pick(ks))] + [{**v, "zz": 1}, {}]
            verdicts(m, rng, b, comb, vals, w, lambda v: None)
            generated(m, rng, b, w, lambda x: None if sp.conforms(comb, x) else "the merged declaration")
            check_members(m, b, comb, w, raw_table(s))
        for names in (None, [ks[0]], [ks[-1]], ks[::2], list(ks), [], rng.sample(ks, n // 2)):
            r = Spec("req", base=left, names=names)
            b0 = build2(m, left)
            b = m.call("make_required", (lambda: make_required(b0)) if names is None else
                       (lambda: make_required(b0, names)))
            comb = sp.norm(r)
            w = dict(schema="make_required of %d keys, %s named" % (n, "all" if names is None else len(names)))
            v = sp.sample(comb, rng)
            vals = [v] + [{x: y for x, y in v.items() if x != k} for k in
                          [ks[0], ks[-1]] + rng.sample(ks, 8)] + [{k: y for k, y in v.items() if rng.chance(.9)}]
            verdicts(m, rng, b, comb, vals, w, lambda v: None)
            check_members(m, b, comb, w, raw_table(left))
        alts = [rng.pick([Spec("int", value=i), Spec("str", value="s%d" % i), Spec("float", value=i + .5)])
                for i in range(n)]
        for form in ("any", "or", "halves", "nested"):
            bs = [build2(m, a) for a in alts]
            if form == "any":
                b = S.any(*bs)
            elif form == "or":
                b = bs[0]
                for x in bs[1:]:
                    b = b | x
            elif form == "halves":
                b = S.any(*bs[:n // 2]) | S.any(*bs[n // 2:])
            else:
                b = bs[-1]
                for i in range(n - 2, max(-1, n - 60), -1):
                    b = S.any(bs[i], b)
                if n > 59:
                    b = S.any(*bs[:n - 59]) | b
            w = dict(schema="union (%s) of %d alternatives" % (form, n))
            got = list(b)
            if len(got) != n or any(x != y for x, y in zip(got, bs)):
                m.fail("iteration does not expose the declared alternatives", got=len(got), **w)
            m.count("members", n)
            comb = Spec("any", alts=alts)
            vals = [sp.sample(a, rng) for a in [alts[0], alts[-1]] + rng.sample(alts, 8)] + \
                [-1, "s", n + 1, None, True, 0.25, "s%d" % n]
            verdicts(m, rng, b, comb, vals, w, lambda v: None)
            generated(m, rng, b, w, lambda x: None if sp.conforms(comb, x) else "any operand")


def d_twins(m, rng):
    """Every pair of look-alike keys, in sums and make_required, declared one or both ways."""
    S = d42.schema
    for pool in TWINS:
        for x in pool:
            for y in pool:
                if x is y:
                    continue
                m.count("twins")
                two = Spec("dict", keys=[(x, Spec("int", value=1), True), (y, Spec("int", value=2), True)])
                one = Spec("dict", keys=[(y, Spec("int", value=3), rng.chance(.5))])
                vals = [{x: a, y: b} for a in (1, 2, 3) for b in (1, 2, 3)] + \
                    [{x: 1}, {y: 2}, {y: 3}, {x: 2}, {}]
                for s in (Spec("add", left=two, right=one), Spec("add", left=one, right=two),
                          Spec("req", base=two, names=[x]), Spec("req", base=two, names=[y]),
                          Spec("req", base=two, names=[x, y]), Spec("req", base=two, names=None),
                          Spec("req", base=Spec("add", left=two, right=one), names=[y])):
                    comb, w = sp.norm(s), dict(schema=sp.describe(s))
                    b = build2(m, s)
                    verdicts(m, rng, b, comb, vals, w, lambda v: None)
                    check_members(m, b, comb, w, raw_table(s))
                    generated(m, rng, b, w, lambda v: None if sp.conforms(comb, v) else "its meaning")
                b = build2(m, Spec("dict", keys=[(x, Spec("int"), True)]))
                for names in ([y], [x, y], (y,), {y}):
                    out = m.attempt("make_required", make_required, b, names)
                    if not out.ok:
                        continue
                    w = dict(schema=C.d42_repr(b), names=names)
                    for v in ({x: 1}, {y: 1}, {x: 1, y: 1}, {}):
                        if C.verdict(m, out.value, v, **w) != (C.verdict(m, b, v, **w) and
                                                               all(k in v for k in names)):
                            m.fail("make_required of an undeclared key accepts another set", value=v, **w)


def d_shared(m, rng):
    """Operands made of the very same member objects (and of the same dicts), with other flags."""
    S, opt = d42.schema, d42.optional
    members = [(S.int, Spec("int")), (S.str("a"), Spec("str", value="a")), (S.none, Spec("none")),
               (S.list(S.int), Spec("list", elem=Spec("int"))),
               (S.dict({"q": S.int}), Spec("dict", keys=[("q", Spec("int"), False)])),
               (S.any(S.int, S.none), Spec("any", alts=[Spec("int"), Spec("none")]))]

    def one(names):
        spec, table = [], {}
        for k in names:
            b, s = rng.pick(members[:3] if rng.chance(.5) else members)
            o = rng.chance(.5)
            spec.append((k, s, o))
            table[opt(k) if o else k] = b
        relaxed = rng.chance(.3)
        if relaxed:
            table[...] = ...
        return S.dict(table), Spec("dict", keys=spec, **({"relaxed": True} if relaxed else {}))

    for _ in range(150):
        m.count("shared_operands")
        names = rng.sample(["a", "b", "c", "d"], rng.pick([1, 2, 3]))
        items = [one(rng.sample(names, 1 + rng._randbelow(len(names)))) for _ in range(3)]
        history = list(items)
        for _ in range(4):
            (b1, s1), (b2, s2) = rng.pick(history), rng.pick(history)
            r = rng._randbelow(4)
            if r < 3:
                b, s = b1 + b2, Spec("add", left=s1, right=s2)
            else:
                names2 = [k for k in raw_table(s1) if rng.chance(.6)]
                b, s = make_required(b1, names2), Spec("req", base=s1, names=names2)
            comb = sp.norm(s)
            history.append((b, s))
            w = dict(schema=sp.describe(s), built=C.d42_repr(b))
            v = sp.sample(comb, rng)
            vals = [v, {}] + [values.perturb(v, rng)[1] for _ in range(3)] + C.drop_each_key(v, 4) + \
                [{k: 0 for k in names}, {k: "a" for k in names}, {**v, "zz": 1}]
            verdicts(m, rng, b, comb, vals, w, lambda v: None)
            check_members(m, b, comb, w, raw_table(s))
            generated(m, rng, b, w, lambda x: None if sp.conforms(comb, x) else "its meaning")
        for b, s in history:
            check_members(m, b, sp.norm(s), dict(schema=sp.describe(s)), raw_table(s))
            for v in ({}, {"a": 1}, {"a": "a", "b": None}):
                verdicts(m, rng, b, sp.norm(s), [v], dict(schema=sp.describe(s)), lambda v: None)
        # unions of the same objects
        bs = [rng.pick(members[:3] + members[4:5]) for _ in range(3)]
        u = S.any(bs[0][0], bs[1][0]) | bs[2][0] | S.any(bs[0][0], bs[1][0])
        su = Spec("any", alts=[x for _, x in bs] + [bs[0][1], bs[1][1]])
        verdicts(m, rng, u, su, [1, "a", None, "b", {"q": 1}, {"q": "x"}, []], dict(schema=sp.describe(su)),
                 lambda v: any(C.verdict(m, x, v) for x, _ in bs))


DIRECTED = [d_shared] * 3 + [d_twins] * 2 + [d_scale] * 6
