"""rollout is the inverse of flattening dotted keys."""
import collections

import d42
from d42 import optional
from d42.utils import rollout

from .. import common as C, spec as sp, specgen, values

CASES = {"quick": 330000, "thorough": 4000000}
EVALUATIONS = "rollouts"
MIN = {"rollouts": 150000, "deep": 15000, "optional_leaves": 40000, "relaxed": 10000,
       "identities": 40000, "leaves": 150000}
RULE = ("one evaluation = one rollout() whose result was walked against the nested mapping it must "
        "give back: same keys at every level, optional markers on the same leaves, every leaf the "
        "very object that was put in; flattened in natural, reversed and shuffled key order, with "
        "twenty separators; and identity on nested mappings without separators; "
        "distinct_nontrivial counts distinct (separator, flat mapping) texts with a joined key")
ASSUMPTIONS = ["a key neither contains the separator nor ends with a part of it (otherwise the "
               "joined form is ambiguous)", "empty nested mappings count as leaves",
               "the order of keys in the result is not compared"]

SEPARATORS = [".", ".", ".", "/", "__", "::", "->", "-", "_", " ", "|", "*", "+", "\\", "$", "é",
              "..", "\n", "a", "%", "[", "<=>", "::", "\x00", "0"]
PARTS = ["", "a", "b", "c", "d", "id", "user", "Name", "0", "1", "x y", "é", "中", "...", "optional",
         "a.b", "_", "__init__", "-", "$ref", "\n", "it's", "A", "aa", "None", "a/b", "items[0]",
         "k:v", "😀"]


def keys_for(sep, rng):
    out = []
    for p in PARTS:
        if sep in p:
            continue
        if len(sep) > 1 and any(p.endswith(sep[:i]) for i in range(1, len(sep))):
            continue
        out.append(p)
    if rng.chance(.6):
        out = [rng.pick(out) for _ in range(rng.pick([1, 2, 3, 5]))]
    return out


def leaf(rng):
    r = rng._randbelow(12)
    if r < 4:
        return rng.pick(SCHEMAS)
    if r < 7:
        return values.scalar(rng)
    if r == 7:
        return rng.pick([[], [1], [{"a.b": 1}], [{"x": {"y.z": [1]}}], ["a.b"], (), ("a.b", {"c.d": 1})])
    if r == 8:
        return "a.b/c"
    if r == 9:
        return specgen_schema(rng)
    if r == 10:
        return rng.pick([..., None, False, 0, ""])
    return values.zoo(rng)


SCHEMAS = [d42.schema.int, d42.schema.str("a.b"), d42.schema.list([...]), d42.schema.any,
           d42.schema.dict({"a.b": d42.schema.int}), d42.schema.dict, d42.schema.none,
           d42.schema.dict({d42.optional("x"): d42.schema.str, ...: ...})]


def specgen_schema(rng):
    try:
        return sp.build(C.gen(rng).gen(1), C.env())
    except Exception:
        return d42.schema.int


def plain_leaf(rng):
    while True:
        x = leaf(rng)
        if not isinstance(x, dict):
            return x


class Empty:
    pass


def nested(rng, keys, depth, top=False, opt=True):
    n = rng.pick([0, 1, 1, 2, 2, 3, 5]) if top else rng.pick([0, 1, 1, 1, 2, 3, 4])
    out = {}
    for _ in range(n):
        k = rng.pick(keys)
        if k in out:
            continue
        if depth > 0 and rng.chance(.55):
            out[k] = nested(rng, keys, depth - 1, False, opt)
            if out[k] == {} and rng.chance(.7):
                out[k] = plain_leaf(rng)
        else:
            wrapped = opt and rng.chance(.35)
            if wrapped and optional(k) in out:
                continue
            out[optional(k) if wrapped else k] = plain_leaf(rng)
    return out


def flatten(v, sep, prefix=None):
    for k, x in v.items():
        name = k.key if isinstance(k, optional) else k
        full = name if prefix is None else prefix + sep + name
        if type(x) is dict and x and not isinstance(k, optional):
            yield from flatten(x, sep, full)
        else:
            yield (optional(full) if isinstance(k, optional) else full), x


def table(v):
    """(is optional, key text) -> value"""
    out = {}
    for k, x in v.items():
        if isinstance(k, optional):
            out[True, k.key] = x
        elif k is Ellipsis:
            out[None, "..."] = x
        else:
            out[False, k] = x
    return out


def differ(got, want, path=()):
    """Why `got` is not the nested mapping `want` (leaves by identity), or None."""
    if not isinstance(want, dict):
        return None if got is want else "leaf at %r was replaced: %s" % (path, sp.vrepr(got))
    if not isinstance(got, dict):
        return "no mapping at %r: %s" % (path, sp.vrepr(got))
    if len(got) != len(want):
        return "%d keys instead of %d at %r" % (len(got), len(want), path)
    a, b = table(got), table(want)
    if a.keys() != b.keys():
        return "keys %r instead of %r at %r" % (sorted(a, key=repr), sorted(b, key=repr), path)
    for k in b:
        if isinstance(k[1], str) and type(k[1]) is str and k[0] is not None:
            mine = next(x for x in a if x == k)
            if type(mine[1]) is not str:
                return "key %r became a %s" % (k, type(mine[1]).__name__)
        why = differ(a[k], b[k], path + (k[1],))
        if why:
            return why
    return None


def depth_of(v):
    return 1 + max([depth_of(x) for x in v.values()], default=0) if isinstance(v, dict) else 0


def observe(m, flat, sep, want, how, default=False):
    m.count("rollouts")
    w = dict(flat=sp.vrepr(flat, 1500), separator=repr(sep), want=sp.vrepr(want, 1500), order=how)
    got = m.call("rollout", (lambda: rollout(flat)) if default else
                 (lambda: rollout(flat, separator=sep)), witness=w)
    why = differ(got, want)
    if why:
        m.fail("rollout does not give back the nested mapping: " + why, got=got, **w)
    return got


def case(m, rng, idx):
    sep = rng.pick(SEPARATORS)
    keys = keys_for(sep, rng)
    if not keys:
        return
    want = nested(rng, keys, rng.pick([0, 1, 2, 3, 4, 6]), top=True)
    relaxed = rng.chance(.25)
    items = list(flatten(want, sep))
    m.count("leaves", len(items))
    m.count("optional_leaves", sum(isinstance(k, optional) for k, _ in items))
    if depth_of(want) >= 3:
        m.count("deep")
    if relaxed:
        m.count("relaxed")
        want[...] = ...
        items.insert(rng._randbelow(len(items) + 1), (..., ...))
    flat = dict(items)
    text = sp.vrepr(flat, 1000)
    m.sample(text)
    if depth_of(want) > 1:
        m.distinct(sep, text)
    observe(m, dict(items), sep, want, "natural", default=sep == "." and rng.chance(.5))
    shuffled = list(items)
    rng.shuffle(shuffled)
    observe(m, dict(shuffled), sep, want, "shuffled")
    if rng.chance(.3):
        observe(m, dict(items[::-1]), sep, want, "reversed")
    # the identity on mappings without separators
    m.count("identities")
    if rng.chance(.6):
        other = want
    else:
        other = nested(rng, keys, rng.pick([1, 2, 3]), top=True)
        if rng.chance(.3):
            other = inner_markers(other, rng)
    got = observe(m, other, sep, other, "already nested")
    if rng.chance(.3):
        observe(m, got, sep, other, "applied twice")


def inner_markers(v, rng):
    """`...: ...` and optional keys at inner levels of an already nested mapping."""
    out = {}
    for k, x in v.items():
        if type(x) is dict:
            x = inner_markers(x, rng)
            if rng.chance(.3) and not isinstance(k, optional) and optional(k) not in v:
                k = optional(k)
            if rng.chance(.1):
                x = collections.OrderedDict(x)
        out[k] = x
    if rng.chance(.3):
        out[...] = ...
    return out


# ---------------------------------------------------------------- directed

def d_deep_wide(m, rng):
    for sep in (".", "__", "/"):
        for depth in (10, 60, 150):
            want = {"k": 1}
            for i in range(depth):
                want = {"k": want, optional("o%d" % i): i, "s": {"t": i, optional("u"): [i]}}
            observe(m, dict(flatten(want, sep)), sep, want, "deep")
        want = {"k%d" % i: {"x": i, optional("y"): {"no": 1} and i, "z": {"w%d" % j: j
                                                                        for j in range(5)}}
                for i in range(400)}
        items = list(flatten(want, sep))
        observe(m, dict(items), sep, want, "wide")
        rng.shuffle(items)
        observe(m, dict(items), sep, want, "wide shuffled")


def d_small(m, rng):
    """Every mapping over two key names up to depth 3 with at most two keys per level."""
    sentinels = [object(), d42.schema.int]

    def shapes(depth):
        yield None
        if depth == 0:
            return
        subs = list(shapes(depth - 1))
        for name in ("a", "", "a b"):
            for s in subs:
                yield {name: s}
        for s in subs:
            for t in subs:
                yield {"a": s, "b": t}

    n = [0]

    def fill(shape, opt):
        if shape is None:
            n[0] += 1
            return sentinels[n[0] % 2]
        return {(optional(k) if opt and x is None and (n[0] + len(k)) % opt == 0 else k):
                fill(x, opt) for k, x in shape.items()}
    for sep in (".", "::", "*"):
        for shape in shapes(3):
            if shape is None:
                continue
            for opt in (0, 1, 2):
                want = fill(shape, opt)
                items = list(flatten(want, sep))
                observe(m, dict(items), sep, want, "natural")
                observe(m, dict(items[::-1]), sep, want, "reversed")
                observe(m, want, sep, want, "already nested")


def d_schema(m, rng):
    """Declaring the rolled-out mapping declares the nested mapping."""
    s = d42.schema
    flat = {"a.b.c": s.int, "a.b.d": s.str, optional("a.e"): s.bool, "f": s.none,
            optional("g.h"): s.list(s.int), ...: ...}
    nested_ = s.dict({"a": s.dict({"b": s.dict({"c": s.int, "d": s.str}), optional("e"): s.bool}),
                      "f": s.none, "g": s.dict({optional("h"): s.list(s.int)}), ...: ...})

    def declare(v):
        return s.dict({k: declare(x) if isinstance(x, dict) else x for k, x in v.items()})
    m.count("rollouts")
    got = m.call("rollout", rollout, flat)
    if declare(got) != nested_:
        m.fail("the rolled-out declaration differs", got=repr(declare(got)), want=repr(nested_))


DIRECTED = [d_deep_wide, d_small, d_schema]
