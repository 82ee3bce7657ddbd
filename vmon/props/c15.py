"""Schema equality is structural; schema == value means the value validates."""
import math

import d42

from .. import alike, common as C, scale, spec as sp, values
from ..regexgen import gen_pattern
from ..spec import Spec, MISSING, nodes, put
from .c16 import Held, HeldProps

CASES = {"quick": 32000, "thorough": 900000}
EVALUATIONS = "comparisons"
MIN = {"comparisons": 200000, "rebuilt_equal": 15000, "mutants_with_witness": 30000,
       "value_comparisons": 80000, "pool_pairs_equal": 5000, "verdicts": 60000,
       "transitive": 1000}
RULE = ("one evaluation = one observed == / != / reflected comparison: independent rebuilds must be "
        "equal, a schema with one declared parameter, key, optionality flag, element, alternative "
        "or marker changed must be unequal whenever the reference model finds a value on which the "
        "two declarations differ, == must be reflexive, symmetric and transitive with != its "
        "negation, equal schemas must give the same verdicts, and schema == value must be exactly "
        "the validation verdict; distinct_nontrivial counts distinct (schema, other) texts")
ASSUMPTIONS = ["schemas that differ only in what the reference model cannot separate by a value "
               "(e.g. precision without a fixed value) may compare either way"]


# ---------------------------------------------------------------- single changes

def drop(s, *names):
    return s.with_(**{n: MISSING for n in names})


def m_number(s, rng):
    out = []
    isint = s.kind == "int"
    steps = [1, -1, 2 ** 64, 10] if isint else [1.0, -1.0, 1e-3, 0.1, 1e10]
    for n in ("min", "max", "value"):
        if s.has(n):
            out.append(drop(s, n))
            v = s.a[n]
            if v == v and not (isinstance(v, float) and math.isinf(v)):
                out += [s.with_(**{n: v + d}) for d in steps]
                out.append(s.with_(**{n: -v}))
                if not isint:
                    out += [s.with_(**{n: math.nextafter(v, math.inf)}),
                            s.with_(**{n: v * (1 + 1e-6)}), s.with_(**{n: float("inf")})]
        else:
            out += [s.with_(**{n: x}) for x in ([0, 5, 2 ** 65] if isint else [0.0, 2.5, 1e300])]
    if s.has("min") and not s.has("max"):
        out.append(drop(s, "min").with_(max=s.a["min"]))
    if s.has("max") and not s.has("min"):
        out.append(drop(s, "max").with_(min=s.a["max"]))
    if not isint:
        if s.has("precision"):
            out += [drop(s, "precision"), s.with_(precision=s.a["precision"] + 1),
                    s.with_(precision=max(1, s.a["precision"] - 1))]
        else:
            out.append(s.with_(precision=1))
        if s.has("value"):
            out.append(s.with_(value=float("nan")))
    return out


def m_len(s, rng):
    out = []
    for n in ("len", "min_len", "max_len"):
        if s.has(n):
            v = s.a[n]
            out += [drop(s, n)] + [s.with_(**{n: x}) for x in (v + 1, v - 1, v + 10) if x >= 0]
            for other in ("len", "min_len", "max_len"):
                if other != n and not s.has(other) and "len" not in (n, other):
                    out.append(drop(s, n).with_(**{other: v}))
                if other == "len" and other != n:
                    out.append(drop(s, "min_len", "max_len").with_(len=v))
                if n == "len" and other != n:
                    out.append(drop(s, "len").with_(**{other: v}))
    if not any(s.has(n) for n in ("len", "min_len", "max_len")):
        out += [s.with_(len=rng.pick([0, 1, 2, 5])), s.with_(min_len=rng.pick([1, 2, 4])),
                s.with_(max_len=rng.pick([0, 1, 2, 6])), s.with_(min_len=1, max_len=3)]
    elif s.has("min_len") != s.has("max_len"):
        if s.has("min_len"):
            out.append(s.with_(max_len=s.a["min_len"] + 2))
        else:
            out.append(s.with_(min_len=1))
    return out


def m_str(s, rng):
    out = []
    if s.has("value"):
        v = s.a["value"]
        out += [drop(s, "value"), s.with_(value=v + "a"), s.with_(value=v.swapcase()),
                s.with_(value=v[::-1]), s.with_(value=v[:-1]), s.with_(value=v + " ")]
    else:
        out += [s.with_(value=x) for x in ("", "a", "ab")]
    if s.has("alphabet"):
        v = s.a["alphabet"]
        out += [drop(s, "alphabet"), s.with_(alphabet=v + "z"), s.with_(alphabet=v[:-1]),
                s.with_(alphabet=v.upper()), s.with_(alphabet="")]
    else:
        out += [s.with_(alphabet="ab"), s.with_(alphabet="")]
    if s.has("substr"):
        v = s.a["substr"]
        out += [drop(s, "substr"), s.with_(substr=v + "a"), s.with_(substr=v[:-1]),
                s.with_(substr=v[::-1]), s.with_(substr=v.upper())]
    else:
        out += [s.with_(substr="a"), s.with_(substr="")]
    if s.has("pattern"):
        t, node = gen_pattern(rng, 1)
        out += [drop(s, "pattern", "node"), s.with_(pattern=t, node=node),
                s.with_(pattern="^" + s.a["pattern"] + "$"), s.with_(pattern=s.a["pattern"] + "a")]
        # what a pattern excludes besides a fixed value
        out = [x for x in out if x.has("value") or not any(
            x.has(n) for n in ("alphabet", "substr")) or not x.has("pattern")]
    else:
        t, node = gen_pattern(rng, 1)
        out.append(Spec("str", pattern=t, node=node))
        if s.has("value"):
            out.append(s.with_(pattern=""))
    return out + m_len(s, rng)


def m_fixed(s, rng):
    pool = {"bool": [True, False], "bytes": values.BYTES, "uuid4": values.UUIDS,
            "datetime": values.DATETIMES, "date": values.DATES}[s.kind]
    out = [s.with_(value=x) for x in pool]
    return out + [drop(s, "value")] if s.has("value") else out


def leaf(rng):
    return rng.pick([Spec("none"), Spec("int"), Spec("str"), Spec("bool"), Spec("any"),
                     Spec("int", value=0), Spec("str", value=""), Spec("list"), Spec("dict"),
                     Spec("float"), Spec("list", elems=[]), Spec("dict", keys=[])])


def m_list(s, rng):
    out = list(m_len(s, rng))
    if s.has("elem"):
        e = s.a["elem"]
        out += [drop(s, "elem"), s.with_(elem=leaf(rng)), drop(s, "elem").with_(elems=[e]),
                s.with_(elem=Spec("any", alts=[e, leaf(rng)])),
                drop(s, "elem").with_(elems=[e], tail=True),
                drop(s, "elem").with_(elems=[e], head=True),
                drop(s, "elem").with_(elems=[e], head=True, tail=True)]
    elif s.has("elems"):
        es = s.a["elems"]
        head, tail = bool(s.get("head")), bool(s.get("tail"))
        for h in (False, True):
            for t in (False, True):
                if (h, t) != (head, tail) and not (h and t and not es):
                    out.append(drop(s, "head", "tail").with_(
                        **dict(([("head", True)] if h else []) + ([("tail", True)] if t else []))))
        out += [drop(s, "elems", "head", "tail"), s.with_(elems=es + [leaf(rng)]),
                s.with_(elems=[leaf(rng)] + es), s.with_(elems=es + [Spec("any")]),
                s.with_(elems=[Spec("any")] + es)]
        if head or tail:         # a marker replaced with one arbitrary element, and back
            x = drop(s, "head", "tail")
            y = ([Spec("any")] if head else []) + es + ([Spec("any")] if tail else [])
            out.append(x.with_(elems=y))
        if es:
            i = rng._randbelow(len(es))
            out += [s.with_(elems=es[:i] + [leaf(rng)] + es[i + 1:]),
                    s.with_(elems=es[:i] + es[i:i + 1] + es[i:])]
            if len(es) > 1 or not (head and tail):
                out.append(s.with_(elems=es[:i] + es[i + 1:]))
            if len(es) > 1:
                out += [s.with_(elems=es[::-1]), s.with_(elems=es[1:] + es[:1])]
            if len(es) == 1 and not head and not tail:
                out.append(drop(s, "elems", "head", "tail").with_(elem=es[0]))
        else:
            out.append(s.with_(elems=[Spec("any")]))
    else:
        out += [s.with_(elem=leaf(rng)), s.with_(elems=[]), s.with_(elems=[leaf(rng)], tail=True)]
    return out


def m_dict(s, rng):
    if not s.has("keys"):
        return [Spec("dict", keys=[]), Spec("dict", keys=[("a", leaf(rng), False)]),
                Spec("dict", keys=[("a", leaf(rng), False)], relaxed=True),
                Spec("dict", keys=[("a", leaf(rng), True)], relaxed=True)]
    ks = s.a["keys"]
    used = {k for k, _, _ in ks}
    out = [drop(s, "relaxed", "relaxed_at") if s.get("relaxed") else
           s.with_(relaxed=True, relaxed_at=len(ks)), drop(s, "keys", "relaxed", "relaxed_at")]
    new = [k for k in ["new", "a", 0, 1, None, "", ("a",), "b", b"a", "0"] if k not in used]
    base = drop(s, "relaxed_at")
    for opt in (True, False):
        out.append(base.with_(keys=ks + [(rng.pick(new), leaf(rng), opt)]))
        out.append(base.with_(keys=ks + [(rng.pick(new), Spec("any"), opt)]))
    if ks:
        i = rng._randbelow(len(ks))
        k, x, o = ks[i]
        swap = lambda item: base.with_(keys=ks[:i] + item + ks[i + 1:])     # noqa: E731
        out += [swap([(k, x, not o)]), swap([(k, x, not o)]), swap([]),
                swap([(rng.pick(new), x, o)]), swap([(k, leaf(rng), o)]),
                swap([(k, Spec("any", alts=[x, Spec("none")]), o)])]
        if len(ks) > 1:
            j = rng._randbelow(len(ks))
            t = list(ks)
            t[i], t[j] = (ks[i][0], ks[j][1], ks[i][2]), (ks[j][0], ks[i][1], ks[j][2])
            out.append(base.with_(keys=t))
            t = list(ks)
            t[i], t[j] = (ks[i][0], ks[i][1], ks[j][2]), (ks[j][0], ks[j][1], ks[i][2])
            out += [base.with_(keys=t), base.with_(keys=ks[::-1])]
        if type(k) is str:
            out.append(swap([(k + "_", x, o)]))
        if type(k) is int:
            out.append(swap([(str(k), x, o)]) if str(k) not in used else swap([]))
    return out


def m_any(s, rng):
    if not s.has("alts"):
        return [Spec("any", alts=[leaf(rng)]), Spec("any", alts=[leaf(rng), leaf(rng)])]
    al = s.a["alts"]
    i = rng._randbelow(len(al))
    out = [s.with_(alts=al + [leaf(rng)]), s.with_(alts=[leaf(rng)] + al),
           s.with_(alts=al[:i] + [leaf(rng)] + al[i + 1:]), s.with_(alts=al[::-1]),
           s.with_(alts=al + [al[i]]), Spec("any"), al[i]]
    if len(al) > 1:
        out += [s.with_(alts=al[:i] + al[i + 1:])] * 2
    return out


def single_changes(s, rng):
    k = s.kind
    if k in ("int", "float"):
        out = m_number(s, rng)
    elif k == "str":
        out = m_str(s, rng)
    elif k in ("bool", "bytes", "uuid4", "datetime", "date"):
        out = m_fixed(s, rng)
    elif k == "list":
        out = m_list(s, rng)
    elif k == "dict":
        out = m_dict(s, rng)
    elif k == "any":
        out = m_any(s, rng)
    elif k == "req":
        names = [key for key, _, _ in s.a["base"].get("keys", [])]
        out = [s.with_(names=names[:1]), s.with_(names=[]), s.with_(names=None), s.a["base"]]
    elif k == "alias":
        out = [s.with_(name=s.a["name"] + "_"), s.a["target"]]
    elif k == "add":
        out = [s.a["left"], s.a["right"], Spec("add", left=s.a["right"], right=s.a["left"])]
    elif k == "or":
        out = [s.a["left"], s.a["right"], Spec("or", left=s.a["right"], right=s.a["left"])]
    else:
        out = []
    if k not in ("req", "add") and rng.chance(.3):
        out.append(leaf(rng))
        out.append(Spec("any", alts=[s, leaf(rng)]))
    return out


def change(s, rng):
    """One random single change at one random node, or None."""
    path, x = rng.pick(list(nodes(s)))
    inside = [n for (n, _) in path]
    out = single_changes(x, rng)
    if inside and inside[-1] in ("left", "right", "base"):
        # operands of + and make_required must stay dict schemas
        out = [y for y in out if y.kind == x.kind and (y.kind != "dict" or y.has("keys"))]
    if not out:
        return None
    y = rng.pick(out)
    if inside and inside[-1] == "base":
        par = dict(nodes(s))[path[:-1]]
        have = {k for k, _, _ in y.get("keys", [])}
        if any(n not in have for n in par.a["names"] or ()):
            return None
    try:
        return put(s, path, y)
    except Exception:
        return None


def witness(n1, n2, rng):
    """A value on which the two normalised models differ, or None."""
    vals = []
    for n in (n1, n2):
        if sp.sat(n):
            v = sp.sample(n, rng)
            vals += [v] + C.probe_values(n, rng, 6) + C.drop_each_key(v, 6)
            for path, sub, _ in sp.sub_positions(n, v):
                vals += [sp.set_at(v, path, x) for x in values.boundary(sub, rng)[:12]]
                if len(vals) > 200:
                    break
        else:
            vals += values.boundary(n, rng)
    for v in vals:
        if sp.conforms(n1, v) != sp.conforms(n2, v):
            return v
    return NOTHING


NOTHING = object()


def compare(m, a, b, **w):
    """All four observations of a == b; they must be consistent.  -> bool"""
    m.count("comparisons")
    r = m.call("==", lambda: a == b, witness=w)
    if type(r) is not bool:
        m.fail("== returned %s" % type(r).__name__, **w)
    if m.call("==", lambda: b == a, witness=w) is not r:
        m.fail("== is not symmetric", left_equals_right=r, **w)
    for x, y in ((a, b), (b, a)):
        n = m.call("!=", lambda: x != y, witness=w)
        if n is not (not r):
            m.fail("!= is not the negation of ==", equal=r, unequal=n, **w)
    return r


def against_value(m, b, v, w, want=None):
    w = dict(w, value=v)
    got = C.verdict(m, b, v, **w)
    m.count("value_comparisons")
    r = m.call("schema == value", lambda: b == v, witness=w)
    if r is not got:
        m.fail("schema == value is %r where validation %s" % (r, "accepts" if got else "rejects"),
               **w)
    r = m.call("schema != value", lambda: b != v, witness=w)
    if r is not (not got):
        m.fail("schema != value is %r where validation %s" % (r, "accepts" if got else "rejects"),
               **w)
    if type(v) in REFLECTS:
        r = m.call("value == schema", lambda: v == b, witness=w)
        n = m.call("value != schema", lambda: v != b, witness=w)
        m.count("value_comparisons")
        if r is not got or n is not (not got):
            m.fail("value == schema is %r where validation %s"
                   % (r, "accepts" if got else "rejects"), **w)
    if want is not None and got is not want:
        m.fail("validation (and ==) differ from the declared meaning", **w)


REFLECTS = (type(None), bool, int, float, str, bytes, list, dict, tuple, set, frozenset,
            values._uuid.UUID, values.dt.datetime, values.dt.date)


def case(m, rng, idx):
    (rebuild_and_mutate if idx % 4 else pool)(m, rng)


def rebuild_and_mutate(m, rng, s=None, changes=8):
    g = C.gen(rng, nan=rng.chance(.1), big=rng.chance(.1), unsat=rng.chance(.15))
    s = s or g.gen(rng.pick([0, 1, 1, 2, 2, 3, 4]))
    e = C.env()
    a, b = m.build(s, e), m.build(s, e)
    text = sp.describe(s)
    m.sample(text)
    n = sp.norm(s)
    w = dict(schema=text)
    for x, y in ((a, a), (a, b), (a, m.build(s, e, shared=True))):
        m.count("rebuilt_equal")
        if not compare(m, x, y, **w):
            m.fail("a schema is not equal to %s" % ("itself" if x is y else
                                                    "an independent build of its declaration"), **w)
    vals = C.probe_values(n, rng, 4, zoo=True) if sp.sat(n) else \
        [values.plain_value(rng, 2) for _ in range(3)]
    for v in vals:
        against_value(m, a, v, w, sp.conforms(n, v))
        if C.verdict(m, b, v, **w) is not C.verdict(m, a, v, **w):
            m.fail("two builds of one declaration give different verdicts", value=v, **w)
        m.count("verdicts")
    for _ in range(changes):
        t = change(s, rng)
        if t is None:
            continue
        try:
            nt = sp.norm(t)
            other = sp.build(t, e)
        except Exception:
            m.count("mutant_not_declarable")
            continue
        ww = dict(w, other=sp.describe(t))
        m.count("mutants")
        eq = compare(m, a, other, **ww)
        v = witness(n, nt, rng)
        if v is NOTHING:
            m.count("mutants_without_witness")
            if eq:
                for v in vals:
                    m.count("verdicts")
                    if C.verdict(m, a, v, **ww) != C.verdict(m, other, v, **ww):
                        m.fail("equal schemas give different verdicts", value=v, **ww)
            continue
        m.count("mutants_with_witness")
        m.count("mutant:" + n.kind if n.kind == nt.kind else "mutant:kind")
        m.distinct(text, ww["other"])
        if eq:
            m.fail("schemas that accept different values compare equal", differ_on=v, **ww)


def pool(m, rng):
    """Many pairs from a small universe, so that equal schemas from different routes occur."""
    g = C.gen(rng, max_width=2, keypool=["a", "b"], fixed=.6)
    e = C.env()
    items = []
    for _ in range(3):
        s = g.gen(rng.pick([0, 1, 1, 2]))
        items.append((s, m.build(s, e)))
    for _ in range(5):
        s = rng.pick(items)[0]
        for _ in range(rng.pick([1, 1, 2])):
            s = change(s, rng) or s
        try:
            sp.norm(s)
            items.append((s, sp.build(s, e)))
        except Exception:
            continue
    for s, b in items[:3]:
        n = sp.norm(s)
        if sp.sat(n):
            out = m.attempt("substitute", d42.substitute, b, sp.sample(n, rng))
            if out.ok:
                items.append((Spec("custom", target=s), out.value))
    vals = []
    for s, _ in items:
        n = sp.norm(s)
        if sp.sat(n):
            v = sp.sample(n, rng)
            vals += [v, values.perturb(v, rng)[1]]
    table, eqs = {}, {}
    for i, (s, b) in enumerate(items):
        table[i] = [C.verdict(m, b, v) for v in vals]
        m.count("verdicts", len(vals))
    for i, (s, a) in enumerate(items):
        for j, (t, b) in enumerate(items):
            if j < i:
                continue
            w = dict(left=C.d42_repr(a), right=C.d42_repr(b))
            eqs[i, j] = eqs[j, i] = compare(m, a, b, **w)
            if i == j and not eqs[i, j]:
                m.fail("a schema is not equal to itself", **w)
            if eqs[i, j]:
                m.count("pool_pairs_equal")
                if table[i] != table[j]:
                    k = [x != y for x, y in zip(table[i], table[j])].index(True)
                    m.fail("equal schemas give different verdicts", value=vals[k], **w)
    r = range(len(items))
    for i in r:
        for j in r:
            if i != j and eqs[i, j]:
                for k in r:
                    if k != i and k != j and eqs[j, k]:
                        m.count("transitive")
                        if not eqs[i, k]:
                            m.fail("== is not transitive", a=C.d42_repr(items[i][1]),
                                   b=C.d42_repr(items[j][1]), c=C.d42_repr(items[k][1]))


# ---------------------------------------------------------------- directed

def d_matrix(m, rng):
    """Every pair of a catalogue of small declarations, compared with the model's acceptance on a
    shared set of values; and every schema against every value."""
    e = C.env()
    cat = [Spec(k) for k in sp.SCALARS] + [Spec("list"), Spec("dict"), Spec("any")]
    cat += [Spec("bool", value=True), Spec("bool", value=False), Spec("int", value=1),
            Spec("int", value=0), Spec("int", min=0), Spec("int", max=0), Spec("int", min=1),
            Spec("int", min=0, max=0), Spec("float", value=0.0), Spec("float", value=1.0),
            Spec("float", value=float("nan")), Spec("float", value=float("inf")),
            Spec("float", min=0.0), Spec("float", max=0.0), Spec("float", value=1.0, precision=1),
            Spec("float", value=1.04, precision=1), Spec("float", value=1.04),
            Spec("str", value=""), Spec("str", value="a"), Spec("str", substr="a"),
            Spec("str", alphabet="a"), Spec("str", alphabet=""), Spec("str", pattern="a"),
            Spec("str", pattern="^a$"), Spec("str", len=0), Spec("str", len=1),
            Spec("str", min_len=1), Spec("str", max_len=1), Spec("str", min_len=1, max_len=1),
            Spec("str", min_len=0, max_len=1), Spec("bytes", value=b""), Spec("bytes", value=b"a"),
            Spec("uuid4", value=values.UUIDS[0]), Spec("uuid4", value=values.UUIDS[1]),
            Spec("datetime", value=values.DATETIMES[0]), Spec("date", value=values.DATES[0]),
            Spec("list", elems=[]), Spec("list", elems=[], head=True), Spec("list", len=0),
            Spec("list", len=1), Spec("list", min_len=1), Spec("list", max_len=1),
            Spec("list", elem=Spec("any")), Spec("list", elem=Spec("int")),
            Spec("list", elems=[Spec("any")]), Spec("list", elems=[Spec("int")]),
            Spec("list", elems=[Spec("int")], head=True), Spec("list", elems=[Spec("int")], tail=True),
            Spec("list", elems=[Spec("int")], head=True, tail=True),
            Spec("list", elems=[Spec("int"), Spec("any")]),
            Spec("list", elems=[Spec("any"), Spec("int")]),
            Spec("list", elems=[Spec("any"), Spec("int"), Spec("any")]),
            Spec("list", elems=[Spec("int"), Spec("int")]),
            Spec("list", elems=[Spec("none")]),
            Spec("dict", keys=[]), Spec("dict", keys=[], relaxed=True)]
    for key in ("a", "b", 1, "1", None):
        for opt in (False, True):
            for rel in (False, True):
                a = {"keys": [(key, Spec("int"), opt)]}
                if rel:
                    a["relaxed"] = True
                cat.append(Spec("dict", **a))
    cat += [Spec("dict", keys=[("a", Spec("any"), False)]),
            Spec("dict", keys=[("a", Spec("int"), False), ("b", Spec("int"), True)]),
            Spec("dict", keys=[("a", Spec("int"), True), ("b", Spec("int"), False)]),
            Spec("any", alts=[Spec("int")]), Spec("any", alts=[Spec("int"), Spec("str")]),
            Spec("any", alts=[Spec("str"), Spec("int")]), Spec("any", alts=[Spec("any")]),
            Spec("any", alts=[Spec("none")]),
            Spec("alias", name="A", target=Spec("int")), Spec("alias", name="A", target=Spec("str")),
            Spec("alias", name="B", target=Spec("int")), Spec("alias", name="A", target=Spec("any"))]
    vals = [None, True, False, 0, 1, -1, 2, 0.0, 1.0, 1.04, -1.0, float("nan"), float("inf"), "",
            "a", "b", "aa", "ab", "ba", b"", b"a", b"b", values.UUIDS[0], values.UUIDS[1],
            values.OTHER_UUIDS[0], values.DATETIMES[0], values.DATETIMES[1], values.DATES[0],
            values.DATES[1], [], [0], [None], ["a"], [0, 0], [0, "a"], ["a", 0], ["a", 0, "a"],
            [1, 2, 3], {}, {"a": 1}, {"b": 1}, {"a": "x"}, {1: 1}, {"1": 1}, {None: 1},
            {"a": 1, "b": 1}, {"a": 1, "c": 1}, {"b": 1, "c": 1}, {1: 1, "c": 1}, (), (1,), {1},
            object(), {"1": 1, "c": 1}, {None: 1, "c": 1}, {True: 1}, ["a", "b"]]
    wraps = [("bare", lambda s: s, lambda v: v),
             ("element", lambda s: Spec("list", elems=[Spec("none"), s]), lambda v: [None, v]),
             ("typed", lambda s: Spec("list", elem=s), lambda v: [v, v]),
             ("contains", lambda s: Spec("list", elems=[s], head=True, tail=True),
              lambda v: [v]),
             ("member", lambda s: Spec("dict", keys=[("k", s, True)]), lambda v: {"k": v}),
             ("alternative", lambda s: Spec("any", alts=[s, Spec("bytes", value=b"?")]),
              lambda v: v),
             ("target", lambda s: Spec("alias", name="W", target=s), lambda v: v)]
    for name, ws, wv in wraps:
        specs = [ws(s) for s in cat]
        ns = [sp.norm(s) for s in specs]
        built = [(m.build(s, e), m.build(s, e)) for s in specs]
        vs = [wv(v) for v in vals]
        acc = [[sp.conforms(n, v) for v in vs] for n in ns]
        for i in range(len(specs)):
            for v, want in zip(vs, acc[i]):
                against_value(m, built[i][0], v, {"schema": sp.describe(specs[i])}, want)
            for j in range(i, len(specs)):
                w = dict(left=sp.describe(specs[i]), right=sp.describe(specs[j]))
                eq = compare(m, built[i][0], built[j][1], **w)
                if i == j and not eq:
                    m.fail("independent builds of one declaration are not equal", **w)
                if acc[i] != acc[j] and eq:
                    k = [x != y for x, y in zip(acc[i], acc[j])].index(True)
                    m.fail("schemas that accept different values compare equal",
                           differ_on=vs[k], **w)
                if acc[i] != acc[j]:
                    m.count("mutants_with_witness")


def d_printed_alike(m, rng):
    """Declarations that print alike although they differ: equality must not rest on text."""
    e = C.env()
    S = e.schema
    keys = [values.Same(), values.Same(), ("t", values.Same()), ("t", values.Same())]

    class Masked(Held):
        def __represent__(self, visitor, *, indent=0, **kwargs):
            return "schema.masked"

    leafs = [S.int, S.str, S.int(1), S.int(2), S.list([S.int]), S.dict({"a": S.int}), S.none]
    probes = [1, 2, 3, "a", [1], [2], {"a": 1}, {"a": 2}, None]
    pairs = []       # (left, left again, right, probe values)
    for a in keys:
        for b in keys:
            for opt in (False, True):
                for rel in (False, True):
                    mk = lambda k, x: S.dict({(d42.optional(k) if opt else k): x,
                                              **({...: ...} if rel else {})})
                    pairs.append((mk(a, S.int), mk(a, S.int), mk(b, S.int),
                                  [{}, {a: 1}, {b: 1}, {a: 1, b: 1}, {a: "x"}, {b: "x"}]))
    for x in leafs:
        for y in leafs:
            hx, hx2, hy = (Masked(HeldProps({"target": t})) for t in (x, x, y))
            pairs.append((hx, hx2, hy, probes))
    wraps = [lambda b: b, lambda b: S.list(b), lambda b: S.list([b, S.int]), lambda b: S.list([..., b]),
             lambda b: S.dict({"k": b}), lambda b: S.any(b, S.bytes(b"?")), lambda b: S.alias("W", b),
             lambda b: S.any(S.none, S.list([b]))]
    inputs = [lambda v: v, lambda v: [v], lambda v: [v, 0], lambda v: [v], lambda v: {"k": v},
              lambda v: v, lambda v: v, lambda v: [v]]
    for wrap, inside in zip(wraps, inputs):
        for left, again, right, vals in pairs:
            a, a2, b = wrap(left), wrap(again), wrap(right)
            w = dict(left=C.d42_repr(a), right=C.d42_repr(b))
            if not compare(m, a, a2, **w):
                m.fail("independent builds of one declaration are not equal", **w)
            eq = compare(m, a, b, **w)
            for v in map(inside, vals):
                x, y = C.verdict(m, a, v, **w), C.verdict(m, b, v, **w)
                m.count("verdicts")
                if x is not C.verdict(m, a2, v, **w):
                    m.fail("two builds of one declaration give different verdicts", value=v, **w)
                if eq and x != y:
                    m.fail("equal schemas give different verdicts", value=v, **w)


def d_scale(m, rng):
    """Texts, lists, dicts, unions and nests far beyond ordinary sizes, one spot changed."""
    for s, vals in scale.all_of(rng, text=5000, members=300, width=130, deep=10):
        m.count("scale_schemas")
        rebuild_and_mutate(m, rng, s, 4)
        b = m.build(s, C.env())
        for v in vals:
            against_value(m, b, v, {"schema": sp.describe(s)[:500]}, sp.conforms(sp.norm(s), v))


def d_subclasses(m, rng):
    """Classes derived from the built-in schema classes: == stays an equivalence."""
    from d42.declaration import types as T
    made = {}

    def derived(base, name):
        if (base, name) not in made:
            made[base, name] = type(name, (base,), {"__orig_bases__": base.__orig_bases__})
        return made[base, name]

    S = d42.schema
    starts = [S.none, S.bool, S.bool(True), S.int, S.int(1), S.int.min(0), S.float, S.float(1.0), S.str,
              S.str("a"), S.str.len(1), S.bytes, S.list, S.list([S.int]), S.list(S.int), S.dict,
              S.dict({"a": S.int}), S.any, S.any(S.int, S.str), S.uuid4, S.datetime, S.date,
              S.alias("x", S.int)]
    probe = [None, True, 1, 0, -1, 1.0, "a", "", b"a", [], [1], {}, {"a": 1}, values.UUIDS[0],
             values.DATETIMES[0], values.DATES[0]]
    for b in starts:
        c = type(b)
        one, two = derived(c, "One"), derived(c, "Two")
        sub = derived(one, "Three")
        family = [b, c(b.props), one(b.props), one(b.props), two(b.props), sub(b.props)]
        groups = [family] + [[S.list([x, S.int]) for x in family], [S.dict({"k": x}) for x in family],
                             [S.list(x) for x in family], [S.any(S.none, S.alias("al", x)) for x in family]]
        for g in groups:
            m.count("subclass_families")
            n = len(g)
            eq = {}
            for i in range(n):
                for j in range(n):
                    m.count("pairs")
                    r = eq[i, j] = m.call("==", lambda: g[i] == g[j])
                    if m.call("!=", lambda: g[i] != g[j]) is not (not r):
                        m.fail("!= is not the negation of ==", a=repr(g[i]), i=i, j=j)
            for i in range(n):
                if not eq[i, i]:
                    m.fail("== is not reflexive", a=repr(g[i]), member=i)
                for j in range(n):
                    if eq[i, j] != eq[j, i]:
                        m.fail("== is not symmetric", a=repr(g[i]), i=i, j=j)
                    if eq[i, j]:
                        for v in probe:
                            if C.verdict(m, g[i], v) != C.verdict(m, g[j], v):
                                m.fail("equal schemas give different verdicts", a=repr(g[i]), value=v)
                    for k in range(n):
                        if eq[i, j] and eq[j, k]:
                            m.count("transitive")
                            if not eq[i, k]:
                                m.fail("== is not transitive", a=repr(g[i]), i=i, j=j, k=k)
            if not eq[0, 1] or not eq[2, 3]:
                m.fail("independent builds of one declaration are not equal", a=repr(g[0]))


def d_alike(m, rng):
    """Declarations that look alike (equal hashes, heads, tails, sizes) are told apart."""
    for _ in range(60):
        family = alike.specs(rng)
        m.count("alike_families")
        built = [(s, sp.norm(s), m.build(s, C.env()), m.build(s, C.env())) for s in family]
        for s1, n1, a, again in built:
            w = dict(schema=sp.describe(s1), other="rebuilt")
            if not compare(m, a, again, **w) and all(x.get("value", 0) == x.get("value", 0) for _, x in nodes(s1)):
                m.fail("two builds of one declaration are unequal", **w)
            for s2, n2, b, _x in built:
                if s1 is s2:
                    continue
                w = dict(schema=sp.describe(s1), other=sp.describe(s2))
                if compare(m, a, b, **w):
                    v = witness(n1, n2, rng)
                    if v is not NOTHING:
                        m.fail("equal schemas that a value tells apart", value=v, **w)
            v = sp.sample(n1, rng)
            for s2, n2, b, _x in rng.sample(built, min(4, len(built))):
                against_value(m, b, v, dict(schema=sp.describe(s2)), sp.conforms(n2, v))


DIRECTED = [d_matrix, d_printed_alike, d_subclasses] + [d_scale] * 20 + [d_alike] * 6
