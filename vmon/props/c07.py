"""Schemas are immutable values and every public operation is pure.

A history of random public operations runs over a pool of schemas; after every step the
fingerprint of every pool member and the snapshot of every value handed in are compared with
those taken when they entered the pool, caller-owned containers are mutated along the way, and
logged operations are executed again and must give equal results.
"""
import functools
import sys
import threading

import d42
from niltype import Nil
from d42.utils import from_native, make_required, rollout
from d42.custom_type import CustomSchema, Props
from d42.declaration import DeclarationError, Schema
from d42.representation import represent
from d42.substitution.errors import SubstitutionError
from d42.validation import Validator, format_result, validate_or_fail

from .. import alike, common as C, monitor, ops, sched, spec as sp, values
from ..spec import Spec

CASES = {"quick": 3600, "thorough": 120000}
EVALUATIONS = "fingerprints_compared"
MIN = {"on_threads": 2000, "interrupted": 5000, "reentered": 500, "fingerprints_compared": 250000, "steps": 28000, "reexecuted": 15000,
       "owned_mutations": 5000, "fakes_mutated": 800, "failed_ops": 5000, "churned": 6000,
       "crowd_members": 20000}
RULE = ("one evaluation = the fingerprint (printed form, verdict vector on 6 probe values, values "
        "generated under two fixed RNG schedules, equality with an independently built twin) of "
        "one pool schema compared after one operation of a random history; plus snapshots of "
        "every argument, re-execution of logged operations and mutation of caller-owned "
        "containers and of generated values; distinct_nontrivial counts distinct "
        "(operation, schema text) pairs")
ASSUMPTIONS = ["observable behaviour = repr, validate, fake under a fixed RNG schedule, ==, "
               "iteration; objects reached through private attributes are not mutated"]


def errors_of(m, b, v):
    res = d42.validate(b, v)
    return tuple(sorted((type(e).__name__, e.format(d42.validation.Formatter()))
                        for e in res.get_errors()))


class Entry:
    __slots__ = ("b", "spec", "probes", "fp", "twin", "genable", "label")


def observe(m, e):
    b = e.b
    r = m.call("repr", repr, b)
    verdicts = tuple(errors_of(m, b, p) for p in e.probes)
    fakes = ()
    for mode in ("min", "alt") if e.genable else ("min",):
        if e.genable:
            fakes += (frozen(C.fake(m, b, sched.Schedule(mode))),)
            continue
        with sched.scheduled(sched.Schedule(mode)):
            out = m.attempt("fake", d42.fake, b)
        fakes += (frozen(out.value) if out.ok else type(out.exc).__name__,)
    extra = ()
    if isinstance(b, d42.declaration.types.DictSchema):
        extra = tuple(sp.vrepr(k) for k in b.keys()), \
            tuple(repr(b[k]) for k in b.keys() if k is not ...)
    elif isinstance(b, d42.declaration.types.AnySchema):
        extra = tuple(repr(x) for x in b)
    same = True if e.twin is None else (b == e.twin and e.twin == b and not (b != e.twin))
    return (r, verdicts, fakes, extra, same)


def frozen(v):
    """An equality-comparable immutable picture of a value."""
    if isinstance(v, list):
        return ("list", tuple(frozen(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((frozen(k), frozen(x)) for k, x in v.items()))
    return (type(v).__name__, sp.vrepr(v, 10 ** 6))


def add(m, rng, pool, b, s, label, probes=None, twin=None):
    e = Entry()
    e.b, e.spec, e.label, e.twin = b, s, label, twin
    e.genable = s is not None and sp.sat(s)
    if probes is None:
        probes = C.probe_values(s, rng, 5, zoo=True) if e.genable else \
            [None, 1, "a", [1, "a"], {"a": 1}]
    e.probes = probes
    e.fp = observe(m, e)
    pool.append(e)
    return e


def check_pool(m, pool, what):
    for e in pool:
        m.count("fingerprints_compared")
        now = observe(m, e)
        if now != e.fp:
            part = [i for i, (x, y) in enumerate(zip(now, e.fp)) if x != y][0]
            m.fail("a schema changed its observable behaviour (%s)" %
                   ["printed form", "verdicts", "generated values", "iteration",
                    "equality with its twin"][part], operation=what, schema=e.label,
                   before=sp.vrepr(e.fp[part], 800), after=sp.vrepr(now[part], 800))


def result_picture(m, x):
    if isinstance(x, Schema):
        return ("schema", repr(x))
    if isinstance(x, tuple) and x and x[0] == "exc":
        return x
    return ("value", frozen(x))


def new_spec(rng):
    g = C.gen(rng, nondet=False, nan=rng.chance(.1), max_width=4)
    return g.rich(rng.pick([1, 1, 2, 3])) if rng.chance(.7) else g.scalar()


def mutate(v, rng):
    """Mutate a caller-owned list/dict in place, possibly deep inside."""
    places = [p for p in values.positions(v) if isinstance(sp.get_at(v, p), (list, dict))]
    if not places:
        return False
    c = sp.get_at(v, rng.pick(places))
    junk = rng.pick([None, 0, "zz", [], d42.schema.none, d42.schema.str("mutant"), ...])
    r = rng._randbelow(5)
    if isinstance(c, list):
        if r == 0:
            c.clear()
        elif r == 1:
            c.append(junk)
        elif r == 2 and c:
            c[rng._randbelow(len(c))] = junk
        elif r == 3 and c:
            c.pop(rng._randbelow(len(c)))
        else:
            c.insert(0, junk)
            c.reverse()
    else:
        keys = list(c)
        if r == 0:
            c.clear()
        elif r == 1 or not keys:
            c["mutant"] = junk
        elif r == 2:
            c[rng.pick(keys)] = junk
        elif r == 3:
            del c[rng.pick(keys)]
        else:
            k = rng.pick(keys)
            c[k], c["m2"] = junk, c[k]
    return True


class World:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.pool = []
        self.log = []            # (label, thunk, picture)
        self.owned = []          # containers the caller keeps
        self.held = []           # (args, snapshot)

    def pick(self, kind=None):
        c = [e for e in self.pool if kind is None or isinstance(e.b, kind)]
        return self.rng.pick(c) if c else None


def value_for(w, e):
    rng = w.rng
    if e.spec is not None and sp.sat(e.spec) and rng.chance(.85):
        v = sp.sample(e.spec, rng)
        if rng.chance(.4):
            v = C.partial(v, rng)
        if rng.chance(.25):
            v = values.perturb(v, rng)[1]
        return values.fresh(v)
    if rng.chance(.2):
        return values.zoo(rng)
    return values.plain_value(rng, 2)


def step(w):
    """One operation -> (label, thunk, args handed in, spec of a resulting schema or None)."""
    rng, m = w.rng, w.m
    T = d42.declaration.types
    op = rng.weighted([(3, "refine"), (3, "refine_bad"), (2, "or"), (2, "add"), (1, "add_bad"),
                       (4, "mod"), (5, "fake"), (4, "validate"), (2, "validate_or_fail"),
                       (1, "format"), (1, "represent"), (2, "required"), (2, "index"),
                       (2, "iterate"), (2, "from_native"), (1, "rollout"), (3, "declare_list"),
                       (3, "declare_dict"), (1, "declare_any"), (2, "eq"), (1, "alias"),
                       (1, "validator"), (1, "bare")])
    if op in ("refine", "refine_bad"):
        e = w.pick()
        kind = type(e.b).__name__.replace("Schema", "").lower()
        names = ops.METHODS.get(kind)
        if not names:
            return None
        args_of = ops.Args(rng, lambda: (w.pick().b, Spec("any")))
        name = rng.pick(names)
        args = args_of.draw(kind, name, e.spec if e.spec is not None and e.spec.kind == kind
                            else Spec(kind), 0.05 if op == "refine" else 0.6)
        b = e.b
        if name == "len" and any(isinstance(a, int) and a > 1000 for a in args):
            return None     # generating that many elements is out of reach
        return ("%s.%s" % (kind, name), lambda: ops.apply_real(b, name, args), list(args), None)
    if op == "or":
        a, b = w.pick().b, w.pick().b
        return ("or", lambda: a | b, [], None)
    if op == "add":
        a, b = w.pick(T.DictSchema), w.pick(T.DictSchema)
        if a is None or b is None:
            return None
        return ("add", lambda: a.b + b.b, [], None)
    if op == "add_bad":
        a, b = w.pick(T.DictSchema), w.pick()
        if a is None:
            return None
        return ("add", lambda: a.b + b.b, [], None)
    if op == "mod":
        e = w.pick()
        v = value_for(w, e)
        s = e.b
        fn = rng.pick([lambda: s % v, lambda: d42.substitute(s, v)])
        return ("mod", fn, [v], None)
    if op == "fake":
        e = w.pick()
        if not e.genable:
            return None
        mode = rng.pick(["min", "max", "alt"])

        def run():
            with sched.scheduled(sched.Schedule(mode)):
                return d42.fake(e.b)
        return ("fake", run, [], None)
    if op in ("validate", "validate_or_fail", "format", "validator"):
        e = w.pick()
        v = value_for(w, e) if rng.chance(.8) else values.zoo(rng)
        s = e.b
        if op == "validate":
            return (op, lambda: list(errors_of(m, s, v)), [v], None)
        if op == "validator":
            vv = Validator()
            return (op, lambda: [repr(type(x)) for x in
                                 s.__accept__(vv, value=v).get_errors()], [v], None)
        if op == "format":
            return (op, lambda: format_result(d42.validate(s, v)), [v], None)
        return (op, lambda: validate_or_fail(s, v), [v], None)
    if op == "represent":
        s = w.pick().b
        return (op, lambda: represent(s), [], None)
    if op == "required":
        e = w.pick(T.DictSchema) if rng.chance(.85) else w.pick()
        if e is None:
            return None
        s = e.b
        names = None
        if isinstance(s, T.DictSchema) and rng.chance(.7):
            names = [k for k in s.keys() if rng.chance(.5)]
            if rng.chance(.2):
                names.append("nonexistent")
            r = rng._randbelow(3)
            names = names if r == 0 else tuple(names) if r == 1 else set(names)
        return (op, (lambda: make_required(s, names)) if names is not None else
                (lambda: make_required(s)), [names], None)
    if op == "index":
        e = w.pick(T.DictSchema)
        if e is None:
            return None
        k = rng.pick(list(e.b.keys()) + ["nokey", ...])
        return (op, lambda: e.b[k], [], None)
    if op == "iterate":
        e = w.pick(T.DictSchema) if rng.chance(.6) else w.pick(T.AnySchema)
        if e is None:
            return None
        if isinstance(e.b, T.DictSchema):
            return (op, lambda: [sp.vrepr(k) for k in e.b] + [len(e.b.keys())], [], None)
        return (op, lambda: [repr(x) for x in e.b], [], None)
    if op == "from_native":
        v = values.plain_value(rng, 3) if rng.chance(.8) else [values.zoo(rng)]
        return (op, lambda: from_native(v), [v], None)
    if op == "rollout":
        d = {}
        for _ in range(rng._randbelow(5)):
            k = rng.pick(["a", "b", "c.d", "c.e", "f.g.h", "f.g.i", "f.j", "c", "f", "m", "m.n",
                          "m.n.p", "m.m", "a.b"])
            d[d42.optional(k) if rng.chance(.3) else k] = \
                rng.pick([1, "x", w.pick().b, {"k.l": 1}, {"m": {"n.o": 2}}, [1], {}, {"d": 3},
                          {"n": {"q": 4}}, {"g": {"i": 5}}])
        if rng.chance(.3):
            d[...] = ...
        return (op, lambda: show(rollout(d)), [d], None)
    if op == "declare_list":
        items = [w.pick().b for _ in range(rng._randbelow(4))]
        if rng.chance(.3):
            items.insert(0, ...)
        if rng.chance(.3):
            items.append(...)
        return (op, lambda: d42.schema.list(items), [items], None)
    if op == "declare_dict":
        table = {}
        for _ in range(rng._randbelow(4)):
            k = rng.pick(values.KEYS)
            table[d42.optional(k) if rng.chance(.3) else k] = w.pick().b
        if rng.chance(.3):
            table[...] = ...
        return (op, lambda: d42.schema.dict(table), [table], None)
    if op == "declare_any":
        alts = [w.pick().b for _ in range(1 + rng._randbelow(3))]
        return (op, lambda: d42.schema.any(*alts), [alts], None)
    if op == "eq":
        a = w.pick().b
        b = w.pick().b if rng.chance(.6) else values.plain_value(rng, 2)
        return (op, lambda: (a == b, a != b), [b] if not isinstance(b, Schema) else [], None)
    if op == "alias":
        a = w.pick().b
        return (op, lambda: d42.schema.alias("Name", a), [], None)
    if op == "bare":
        k = rng.pick(["int", "str", "list", "dict", "any", "float"])
        return (op, lambda: getattr(d42.schema, k), [], None)
    raise AssertionError(op)


def show(v):
    if isinstance(v, dict):
        return {sp.vrepr(k): show(x) for k, x in v.items()}
    return sp.vrepr(v)


def run(thunk):
    try:
        return thunk()
    except Exception as e:
        return ("exc", type(e).__name__, text_of(e))


def text_of(e):
    try:
        return str(e)[:2000]
    except Exception:
        return "<unprintable>"


def observations(b, vals, mode):
    """What the public operations say about a schema on fresh copies of given values."""
    out = [run(lambda: repr(b))]
    for v in vals:
        v = values.fresh(v)
        out.append(run(lambda: [(type(e).__name__, e.format(d42.validation.Formatter()))
                                for e in d42.validate(b, v).get_errors()]))
        out.append(run(lambda: repr(d42.substitute(b, v))))
        out.append(run(lambda: b == v))
    with sched.scheduled(sched.Schedule(mode)):
        out.append(run(lambda: frozen(d42.fake(b))))
    out.append(run(lambda: repr(make_required(b))))
    return out


def churn(m, rng):
    """Short-lived schemas: what an operation says about a schema (or a value) must not depend on
    other objects that lived, perhaps at the same address, before it."""
    specs = []
    base = [new_spec(rng) for _ in range(3)]
    for s in base:
        same_kind = [new_spec(rng) for _ in range(2)]
        specs += [s] + same_kind
    kind = rng.pick(["str", "int", "float", "list", "dict", "any"])
    g = C.gen(rng, nondet=False, max_width=3)
    for _ in range(6):
        s = getattr(g, "g_" + kind)() if kind in ("str", "int", "float") else g.gen(1)
        specs.append(s)
    catalogue = []
    for s in specs:
        n = sp.norm(s)
        if not sp.sat(n):
            continue
        m.build(s, C.env())
        vals = C.probe_values(n, rng, 2)[:2] + [rng.pick([1, "a", [1], {"a": 1}])]
        catalogue.append((s, vals))
    if len(catalogue) < 2:
        return
    alive = [sp.build(s, C.env()) for s, _ in catalogue]
    first = [observations(b, vals, "alt") for b, (_, vals) in zip(alive, catalogue)]
    del alive
    for _ in range(60):
        i = rng._randbelow(len(catalogue))
        s, vals = catalogue[i]
        b = sp.build(s, C.env())
        now = observations(b, vals, "alt")
        del b
        m.count("churned")
        if now != first[i]:
            k = [x != y for x, y in zip(now, first[i])].index(True)
            m.fail("an operation on an equal schema and equal values gives another result than "
                   "before", schema=sp.describe(s), before=sp.vrepr(first[i][k], 800),
                   after=sp.vrepr(now[k], 800), values=vals)


def case(m, rng, idx):
    if idx % 10 == 9:
        return churn(m, rng)
    w = World(m, rng)
    for k in rng.pick([["int", "str", "dict"], ["list", "any", "float"], ["dict", "list", "bool"]]):
        add(m, rng, w.pool, getattr(d42.schema, k), Spec(k), "schema." + k,
            twin=getattr(d42.schema, k))
    for _ in range(5):
        s = new_spec(rng)
        try:
            b, twin = m.build(s, C.env()), m.build(s, C.env())
        except Exception:
            continue
        add(m, rng, w.pool, b, sp.norm(s), sp.describe(s), twin=twin)
    m.sample("; ".join(e.label for e in w.pool[3:6]))
    log = []
    held = []
    for _ in range(22):
        st = step(w)
        if st is None:
            continue
        label, thunk, args, spec = st
        m.count("steps")
        m.count("op:" + label.split(".")[0])
        snaps = [(a, values.snapshot(a)) for a in args]
        pictures = [frozen(a) for a in args]
        out = run(thunk)
        if isinstance(out, tuple) and out and out[0] == "exc":
            m.count("failed_ops")
        for (a, s0), p0 in zip(snaps, pictures):
            if values.snapshot(a) != s0 or frozen(a) != p0:
                m.fail("an operation changed a value passed in", operation=label, value=a,
                       before=sp.vrepr(p0, 800))
        what = label
        m.distinct(label, sp.vrepr(out, 300))
        check_pool(m, w.pool, what)
        # repeating the operation gives an equal result
        pic = result_picture(m, out)
        again = run(thunk)
        m.count("reexecuted")
        same(m, label, out, again, pic)
        if isinstance(out, Schema) and len(w.pool) < 14:
            # what was passed in may change now: the schema must not
            e = add(m, rng, w.pool, out, None, "%s -> %s" % (label, pic[1][:300]), twin=again)
            e.genable = False
        elif isinstance(out, Schema) and rng.chance(.3):
            i = 8 + rng._randbelow(len(w.pool) - 8) if len(w.pool) > 8 else 0
            w.pool.pop(i)
        for a in args:
            if isinstance(a, (list, dict)):
                w.owned.append((label, a))
        log.append((label, thunk, args, snaps, out, pic))
        if rng.chance(.3):
            e = w.pick()
            res = d42.validate(e.b, rng.pick(e.probes))
            held.append((e, res, rendered(res)))
            d42.validate(e.b, values.Opaque()).get_errors().clear()
        if label == "fake" and isinstance(out, (list, dict)):
            before = frozen(out)
            if mutate(out, rng):
                m.count("fakes_mutated")
                if frozen(run(thunk)) != before:
                    m.fail("mutating a generated value changed what is generated next",
                           before=sp.vrepr(before, 800))
                log.pop()
        if w.owned and rng.chance(.4):
            i = rng._randbelow(len(w.owned))
            label2, a = w.owned[i]
            if mutate(a, rng):
                m.count("owned_mutations")
                check_pool(m, w.pool, "caller mutated what it passed to " + label2)
        # an old operation on unchanged arguments, executed again after everything else
        if log and rng.chance(.6):
            label3, thunk3, args3, snaps3, out3, pic3 = rng.pick(log)
            if all(values.snapshot(a) == s0 for a, s0 in snaps3):
                m.count("reexecuted")
                same(m, label3, out3, run(thunk3), pic3)
    for e, res, before in held:
        m.count("held_results")
        if rendered(res) != before:
            m.fail("a validation result changed after it was returned", schema=e.label,
                   before=before, after=rendered(res))


def rendered(res):
    return [e.format(d42.validation.Formatter()) for e in res.get_errors()]


def same(m, label, out, again, pic):
    p2 = result_picture(m, again)
    if p2 != pic or isinstance(out, Schema) and not (out == again and again == out):
        m.fail("repeating an operation on equal inputs gives another result", operation=label,
               first=sp.vrepr(pic, 900), second=sp.vrepr(p2, 900))


# ---------------------------------------------------------------- crowds

def _crowd_regex(S, i):
    p, v = "x%dy" % i, "x%dy" % i
    return S.str.regex(p), v, "x%dy" % (i + 1), "schema.str.regex(%r)" % p


def _crowd_class(S, i):
    c = chr(0x4000 + i)
    return S.str.regex("[%s]{2}" % c), c * 2, "ab", "schema.str.regex(%r)" % ("[%s]{2}" % c)


def _crowd_str(S, i):
    return S.str("v%d" % i), "v%d" % i, "v%d" % (i + 1), "schema.str('v%d')" % i


def _crowd_int(S, i):
    return S.int.min(i).max(i), i, i + 1, "schema.int.min(%d).max(%d)" % (i, i)


def _crowd_float(S, i):
    return S.float(i / 8), i / 8, (i + 1) / 8, "schema.float(%r)" % (i / 8)


def _crowd_alphabet(S, i):
    c = chr(0x3400 + i)
    return S.str.alphabet(c).len(2), c * 2, "ab", "schema.str.alphabet(%r).len(2)" % c


def _crowd_any(S, i):
    return S.any(S.int(i), S.int(i)), i, i + 1, "schema.any(schema.int(%d), schema.int(%d))" % (i, i)


def _crowd_dict(S, i):
    k = "k%d" % i
    return S.dict({k: S.int(i)}), {k: i}, {"k": i}, \
        "schema.dict({\n    %r: schema.int(%d)\n})" % (k, i)


def _crowd_list(S, i):
    return S.list([S.int(i)]), [i], [i, i], "schema.list([\n    schema.int(%d)\n])" % i


def _crowd_subst(S, i):
    return S.any(S.int, S.str) % i, i, i + 1, "schema.any(schema.int(%d))" % i


def _crowd_native(S, i):
    v = [i, float(i), str(i), i % 2 == 0, bytes([i % 256])][i % 5]
    name = type(v).__name__
    return d42.utils.from_native(v), v, (v, ), "schema.%s(%r)" % (name, v)


CROWDS = [_crowd_regex, _crowd_class, _crowd_str, _crowd_int, _crowd_float, _crowd_alphabet,
          _crowd_any, _crowd_dict, _crowd_list, _crowd_subst, _crowd_native]


def crowd(m, rng, kinds, n=2500):
    """Thousands of distinct schemas in one process: whatever the operations remember (by hash, by
    identity, by number) must not make one of them answer for another."""
    import d42.utils  # noqa: F401
    S = d42.schema
    for make in kinds:
        kept = []
        for i in range(n):
            b, good, bad, text = make(S, i)
            check_member(m, b, good, bad, text)
            if rng.chance(0.05):
                kept.append((b, good, bad, text))
        for b, good, bad, text in kept:
            check_member(m, b, good, bad, text)
        m.count("crowd_members", n)


def check_member(m, b, good, bad, text):
    r = m.call("repr", repr, b)
    if "".join(r.split()) != "".join(text.split()):
        m.fail("the printed form is that of another schema", expected=text, printed=r)
    v = m.call("fake", d42.fake, b)
    if type(v) is not type(good) or v != good:
        m.fail("the generated value is that of another schema", schema=text, expected=good,
               generated=v)
    if m.call("validate", d42.validate, b, good).has_errors():
        m.fail("the verdict is that of another schema (conforming value rejected)", schema=text,
               value=good)
    if not m.call("validate", d42.validate, b, bad).has_errors():
        m.fail("the verdict is that of another schema (other value accepted)", schema=text,
               value=bad)
    s = m.call("substitute", d42.substitute, b, good)
    if m.call("fake", d42.fake, s) != good:
        m.fail("substitution answers for another schema or value", schema=text, value=good)


def _directed(kinds):
    return lambda m, rng: crowd(m, rng, kinds)


def alike_crowd(m, rng):
    """Declarations that look alike, in different orders: each says what it said before."""
    S = d42.schema
    for _ in range(60):
        if rng.chance(.7):
            family = alike.specs(rng) if rng.chance(.7) else \
                [Spec("str", pattern=p) for p in alike.patterns(rng)]
            make = [functools.partial(sp.build, s, C.env()) for s in family]
            vals = [sp.sample(sp.norm(s), rng) for s in family]
        else:
            vals = alike.nested(rng, alike.plain(rng))
            if rng.chance(.5):
                make = [functools.partial(from_native, values.fresh(v)) for v in vals]
            else:
                top = S.any(S.list, S.dict, S.int, S.str, S.bytes, S.float, S.uuid4, S.datetime, S.date)
                make = [functools.partial(d42.substitute, top, values.fresh(v)) for v in vals]
        probes = vals if len(vals) < 6 else rng.sample(vals, 5)
        seen = {}
        kept = {}
        order = list(range(len(make)))
        for turn in range(3):
            rng.shuffle(order)
            for i in order:
                b = make[i]() if turn < 2 or i not in kept else kept[i]
                kept[i] = b
                now = observations(b, probes, "alt")
                m.count("alike")
                m.count("fingerprints_compared")
                if i in seen and frozen(seen[i]) != frozen(now):
                    m.fail("what a schema says depends on the schemas used before it", schema=C.d42_repr(b),
                           before=sp.vrepr(seen[i], 900), after=sp.vrepr(now, 900))
                seen[i] = now


# ---------------------------------------------------------------- interrupted operations

class Boom(Exception):
    pass


class Bomb(CustomSchema[Props]):
    """A user type whose hooks work like schema.int, or raise while `armed` is an exception."""
    armed = None
    aside = None        # other work to do in the middle of an operation
    fired = 0

    def _go(self):
        if Bomb.armed is not None:
            Bomb.fired += 1
            raise Bomb.armed
        if Bomb.aside is not None:
            todo, Bomb.aside = Bomb.aside, None
            try:
                Bomb.fired += 1
                todo()
            except Exception:
                pass
            finally:
                Bomb.aside = todo

    def __validate__(self, visitor, *, value, path, **kwargs):
        self._go()
        return d42.schema.int.__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        self._go()
        return d42.schema.int.__accept__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        self._go()
        return d42.schema.int.__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, *, value, **kwargs):
        self._go()
        return d42.schema.int.__accept__(visitor, value=value, **kwargs)


def _wrappers():
    S = d42.schema
    return [
        (lambda b: S.list(b), lambda v: [v]),
        (lambda b: S.list(b).len(2), lambda v: [v, v]),
        (lambda b: S.list([b]), lambda v: [v]),
        (lambda b: S.list([b, ...]), lambda v: [v, "x"]),
        (lambda b: S.list([..., b]), lambda v: ["x", v]),
        (lambda b: S.list([..., S.str("k"), b, ...]), lambda v: ["x", "k", v, "y"]),
        (lambda b: S.dict({"k": b, "z": S.str}), lambda v: {"k": v, "z": "q"}),
        (lambda b: S.dict({d42.optional("k"): b, ...: ...}), lambda v: {"k": v, "o": 1}),
        (lambda b: S.any(S.str("no"), b), lambda v: v),
        (lambda b: S.any(b, S.none), lambda v: v),
        (lambda b: S.alias("A", b), lambda v: v),
    ]


def _ordinary():
    S = d42.schema
    deep, dv = S.int.min(2).max(5), 3
    for i in range(18):
        deep, dv = ((S.list([deep]), [dv]) if i % 3 == 0 else
                    (S.dict({"k%d" % i: deep}), {"k%d" % i: dv}) if i % 3 == 1 else
                    (S.any(S.none, deep), dv))
    return [
        (deep, dv), (S.int, 4), (S.str.len(2, 5).contains("b"), "abc"),
        (S.str.regex("[a-c]{2,4}(x|y)"), "abx"), (S.list(S.int(3)).len(2), [3, 3]),
        (S.list([..., S.int, S.str, ...]), [None, 1, "a"]),
        (S.dict({"a": S.int, d42.optional("b"): S.list([S.str, ...])}), {"a": 1, "b": ["x"]}),
        (S.dict({"a": S.dict({"b": S.dict({"c": S.any(S.int, S.str)}), ...: ...})}),
         {"a": {"b": {"c": "t"}}}),
        (S.any(S.dict({"t": S.str("x"), "v": S.int}), S.dict({"t": S.str("y"), "v": S.str})),
         {"t": "y", "v": "w"}),
        (S.float.min(1.5).max(2.5).precision(2), 2.25), (S.alias("N", S.int | S.none), None),
    ]


def nested_bomb(rng, depth):
    b, v = Bomb(), 7
    for _ in range(depth):
        w, wv = rng.pick(_wrappers())
        b, v = w(b), wv(v)
    return b, v


def failing_operations(rng):
    """(label, thunk) that usually raise, half way through a nested structure."""
    S = d42.schema

    def nest(b, v=None, n=5):
        for _ in range(n):
            w, wv = rng.pick(_wrappers())
            b, v = w(b), wv(v)
        return b, v
    unsat, _ = nest(S.int.min(5).max(1))
    refused, _ = nest(S.str.regex(r"(?<=a)b\bc"))
    narrow, wrong = nest(S.int.min(3), 1)
    native = S.list
    foreign = object()
    for _ in range(5):
        foreign = rng.pick([lambda x: [x], lambda x: {"k": x}, lambda x: [1, {"q": x}]])(foreign)
    opaque, _ = nest(S.int)
    _, hostile = nest(S.int, rng.pick([values.Opaque(), foreign]))
    return [
        ("fake unsatisfiable", lambda: d42.fake(unsat)),
        ("fake unsupported pattern", lambda: d42.fake(refused)),
        ("substitute refused", lambda: d42.substitute(narrow, wrong)),
        ("substitute foreign", lambda: d42.substitute(native, foreign)),
        ("% foreign", lambda: d42.schema.dict % {"k": foreign}),
        ("from_native foreign", lambda: from_native(foreign)),
        ("validate_or_fail", lambda: validate_or_fail(opaque, hostile)),
        ("compare hostile", lambda: opaque == hostile),
        ("declare twice", lambda: S.list([S.int]).len(1).len(1)),
        ("declare member", lambda: S.dict({"a": S.list([S.dict({"b": 5})])})),
        ("make_required unknown", lambda: make_required(S.dict({"a": S.int}), ["b"])),
        ("make_required non-dict", lambda: make_required(narrow, ["b"])),
        ("rollout clash", lambda: rollout({"a": 1, "a.b": 2, "a.b.c": 3})),
        ("index", lambda: S.dict({"a": S.int})["zz"]),
        ("register", lambda: d42.custom_type.register_type("int", int)),
        ("attribute", lambda: S.nonexistent),
    ]


def interrupted(m, rng, k):
    """However operations were left (by an exception out of a user's hook, a refusal, an
    interrupt), the ones that follow give what they gave before."""
    Bomb.armed = None
    pool = _ordinary() + [nested_bomb(rng, d) for d in (0, 1, 2, 3, 5, 8)]
    watched = [(b, [v, "wrong", [v], {"k": v}]) for b, v in pool]

    def look():
        return [observations(b, vals, "alt") for b, vals in watched]
    before = look()
    exceptions = [Boom("x"), ValueError("x"), KeyError("k"), TypeError("t"), RecursionError(),
                  StopIteration(), SubstitutionError("s"), DeclarationError("d"),
                  AttributeError("__d42_x__"), NotImplementedError(), KeyboardInterrupt(),
                  GeneratorExit(), MemoryError(), AssertionError()]
    todo = []
    if k < 3:
        for e in exceptions[k::3]:
            for _ in range(4):
                b, v = nested_bomb(rng, 1 + rng._randbelow(7))
                names = ("validate", "validate_or_fail", "fake", "repr", "substitute", "partial",
                         "eq", "format", "required")
                fns = (lambda b=b, v=v: d42.validate(b, v),
                       lambda b=b, v=v: validate_or_fail(b, v), lambda b=b: d42.fake(b),
                       lambda b=b: repr(b), lambda b=b, v=v: d42.substitute(b, v),
                       lambda b=b, v=v: b % C.partial(v, rng), lambda b=b, v=v: (b == v, v == b),
                       lambda b=b: format_result(d42.validate(d42.schema.any(b), b)),
                       lambda b=b: make_required(b))
                todo += [(n, f, e) for n, f in zip(names, fns)]
    else:
        for _ in range(12):
            todo += [(n, f, None) for n, f in failing_operations(rng)]
    rng.shuffle(todo)
    for j, (name, fn, e) in enumerate(todo):
        for _ in range(rng.pick([1, 1, 3, 40])):
            Bomb.armed = e
            try:
                fn()
                m.count("interrupted_survived")
            except BaseException as x:
                if isinstance(x, monitor.Watchdog):
                    raise
                m.count("interrupted")
            finally:
                Bomb.armed = None
        i = rng._randbelow(len(watched))
        checks = [i] if j % 10 else range(len(watched))
        for i in checks:
            now = observations(watched[i][0], watched[i][1], "alt")
            if now != before[i]:
                q = [x != y for x, y in zip(now, before[i])].index(True)
                m.fail("an operation gives another result after one that was interrupted",
                       interrupted=name, exception=repr(e), schema=repr(watched[i][0])[:800],
                       before=sp.vrepr(before[i][q], 800), after=sp.vrepr(now[q], 800))
    m.count("interruptions_fired", Bomb.fired)


def _interrupted(k):
    return lambda m, rng: interrupted(m, rng, k)


def reentered(m, rng):
    """A user's hook may itself use the package: the operation it runs in must not notice."""
    Bomb.armed = Bomb.aside = None
    bombs = [nested_bomb(rng, d) for d in (0, 1, 2, 3, 4, 6, 8)]
    others = _ordinary() + [nested_bomb(rng, d) for d in (1, 4)]
    watched = [(b, [v, "wrong", [v], {"k": v}, C.partial(v, rng)]) for b, v in bombs]
    before = [observations(b, vals, "alt") for b, vals in watched]
    expected = [observations(b, [v, "wrong"], "alt") for b, v in others]
    fails = failing_operations(rng)
    for _ in range(60):
        q = rng._randbelow(len(others))
        ob, ov = others[q]
        inner = []
        name, todo = rng.pick([
            ("everything", lambda: inner.append(observations(ob, [ov, "wrong"], "alt"))),
            ("validate", lambda: d42.validate(ob, [ov])), ("repr", lambda: repr(ob)),
            ("substitute", lambda: d42.substitute(ob, ov)), ("eq", lambda: ob == others[0][0]),
            ("declare", lambda: d42.schema.list([ob, ...]) | d42.schema.alias("Q", ob)),
        ] + fails)
        i = rng._randbelow(len(watched))
        b, vals = watched[i]
        Bomb.aside = todo
        try:
            now = observations(b, vals, "alt") if name != "fake unsupported pattern" else before[i]
        finally:
            Bomb.aside = None
        m.count("reentered")
        # generation inside generation draws from the same scheduler: leave those results out
        if name in ("everything", "fake unsatisfiable"):
            k = len(now) - 2
            now, want = now[:k] + now[k + 1:], before[i][:k] + before[i][k + 1:]
        else:
            want = before[i]
        if now != want:
            k = [x != y for x, y in zip(now, want)].index(True)
            m.fail("an operation gives another result when a hook called by it uses the package",
                   inside=name, schema=repr(b)[:800], before=sp.vrepr(want[k], 800),
                   after=sp.vrepr(now[k], 800))
        for got in inner[:3]:
            if got != expected[q]:
                k = [x != y for x, y in zip(got, expected[q])].index(True)
                m.fail("an operation inside a user's hook gives another result than outside",
                       schema=repr(ob)[:800], before=sp.vrepr(expected[q][k], 800),
                       after=sp.vrepr(got[k], 800))


def together(m, rng):
    """Operations on several threads give what they give alone."""
    Bomb.armed = Bomb.aside = None
    pool = _ordinary()
    while len(pool) < 40:
        s = new_spec(rng)
        n = sp.norm(s)
        if sp.sat(n):
            pool.append((m.build(s, C.env()), sp.sample(n, rng)))
    pool = [(b, [v, "wrong", [v], {"k": v}, values.perturb(v, rng)[1]]) for b, v in pool]

    def look(b, vals):
        out = []
        for v in vals:
            out.append(run(lambda: [(type(e).__name__, e.format(d42.validation.Formatter()))
                                    for e in d42.validate(b, v).get_errors()]))
            out.append(run(lambda: repr(d42.substitute(b, v))))
            out.append(run(lambda: b == v))
        out.append(run(lambda: repr(b)))
        out.append(run(lambda: repr(make_required(b))))
        return out
    alone = [look(b, vals) for b, vals in pool]
    wrong, done = [], []

    def work(k):
        order = values_rng(k)
        for _ in range(4):
            mine = list(range(len(pool)))
            order.shuffle(mine)
            for i in mine:
                b, vals = pool[i]
                now = look(b, vals)
                done.append(i)
                if now != alone[i]:
                    q = [x != y for x, y in zip(now, alone[i])].index(True)
                    wrong.append(dict(schema=repr(b)[:800], alone=sp.vrepr(alone[i][q], 800),
                                      together=sp.vrepr(now[q], 800)))
                    return
    salt = rng._randbelow(1 << 30)

    def values_rng(k):
        return type(rng)(salt + k)
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(before)
    m.count("on_threads", len(done))
    for w in wrong[:1]:
        m.fail("an operation gives another result while other threads use the package", **w)


FMT = d42.validation.Formatter()
SIZES = [0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 128, 129, 200,
         255, 256, 257, 512, 1000, 1025]


def owned_sizes(part, m, rng):
    """Containers of many sizes stay the caller's: what was built from them does not follow later
    changes, and no operation changes them."""
    S = d42.schema
    for n in SIZES[part::3]:
        def leaf(i):
            return rng.pick([S.int(i), S.str("k%d" % i), S.any(S.int, S.none), S.int.min(i)])

        def native(i):
            return rng.pick([i, "k%d" % i, None, [i, [i]], {"a": [i], "b": {"c": i}}, [], {}])

        def value_list():
            return [native(i) for i in range(n)]

        def value_dict():
            return {rng.pick(["k%d" % i, i, (i,)]): native(i) for i in range(n)}
        vl, vd = value_list(), value_dict()
        keys = list(vd)
        wide = S.dict({k: S.any for k in vd})
        inputs = [
            ("list", [leaf(i) for i in range(n)], lambda c: S.list(c)),
            ("list head", [...] + [leaf(i) for i in range(n)], lambda c: S.list(c) if n else S.list),
            ("list tail", [leaf(i) for i in range(n)] + [...], lambda c: S.list(c) if n else S.list),
            ("dict", {"k%d" % i: leaf(i) for i in range(n)}, lambda c: S.dict(c)),
            ("dict optional", {d42.optional("k%d" % i): leaf(i) for i in range(n)}, lambda c: S.dict(c)),
            ("dict relaxed", dict([("k%d" % i, leaf(i)) for i in range(n)] + [(..., ...)]),
             lambda c: S.dict(c)),
            ("any", [leaf(i) for i in range(n)], lambda c: S.any(*c) if n else S.any),
            ("from_native list", value_list(), from_native),
            ("from_native dict", value_dict(), from_native),
            ("substitute bare list", value_list(), lambda c: S.list % c),
            ("substitute typed list", value_list(), lambda c: S.list(S.any) % c),
            ("substitute bare dict", value_dict(), lambda c: S.dict % c),
            ("substitute bare any", rng.pick([value_list, value_dict])(), lambda c: S.any % c),
            ("substitute relaxed", values.fresh(vd),
             lambda c: S.dict(dict([(k, S.any) for k in keys] + [(..., ...)])) % c),
            ("substitute dict", values.fresh(vd), lambda c: wide % c),
            ("substitute contains", value_list(), lambda c: S.list([S.any, ...]) % c if n else S.list),
            ("substitute union", value_list(), lambda c: S.any(S.int, S.list) % c),
            ("substitute nested", {"a": [value_dict()]}, lambda c: S.dict({"a": S.list([S.dict])}) % c),
            ("substitute alias", value_dict(), lambda c: S.alias("A", S.dict) % c),
            ("required", list(keys), lambda c: make_required(wide, c)),
            ("rollout", {"r.k%d" % i: leaf(i) for i in range(n)}, lambda c: S.dict(rollout(c).get("r", {}))),
        ]
        for label, c, make in inputs:
            m.count("owned_containers")
            snap, pic = values.snapshot(c), frozen(c)
            b = run(lambda: make(c))
            if not isinstance(b, Schema):
                m.fail("building from an owned container failed", how=label, size=n, got=sp.vrepr(b))
            probe = [vl, vd, c, values.fresh(vl), 5, [], {}]
            probe = [values.fresh(x) for x in probe if not sp_has_schema(x)]

            def look():
                return (repr(b), [run(lambda: [e.format(FMT) for e in d42.validate(b, v).get_errors()][:5])
                                  for v in probe], run(lambda: repr(b % probe[0])), run(lambda: repr(b | S.none)))
            before = look()
            if values.snapshot(c) != snap or frozen(c) != pic:
                m.fail("an operation changed a container of the caller", how=label, size=n)
            for _ in range(3):
                mutate(c, rng)
            c.clear()
            now = look()
            if now != before:
                k = [x != y for x, y in zip(now, before)].index(True)
                m.fail("a schema follows later changes of the container it was built from", how=label,
                       size=n, before=sp.vrepr(before[k], 600), after=sp.vrepr(now[k], 600))
            m.distinct("owned", label, n)
    # values that operations only look at
    odd = [Nil, ..., None, True, "", (), frozenset(), b"", 0.0, "...", "Nil", d42.optional("a"), int, values.Opaque()]
    for n in (1, 2, 5, 10, 11, 33, 130)[part::3]:
        for special in odd:
            def build():
                d = {("k%d" % i): [i, {"x": i}] for i in range(n)}
                d[special] = [special, {special: special}]
                return d
            for v in (build(), [build()] * 2, [special] * n, [build() for _ in range(3)], {"a": build()}):
                for b in (S.dict, S.any, S.list, S.dict({"k0": S.list, ...: ...}), S.list(S.dict),
                          S.list([S.dict({"k0": S.list}), ...]), S.dict({"a": S.dict}), S.any(S.int, S.dict),
                          S.list([..., S.dict({...: ...})]), S.dict({special: S.list}) if special is not ...
                          else S.dict({...: ...}), S.dict({"k0": S.int})):
                    for what, fn in (("validate", lambda: repr(d42.validate(b, v).has_errors())),
                                     ("substitute", lambda: repr(b % v)), ("eq", lambda: b == v),
                                     ("format", lambda: [e.format(FMT) for e in d42.validate(b, v).get_errors()]),
                                     ("from_native", lambda: repr(from_native(v))),
                                     ("validate_or_fail", lambda: d42.validate_or_fail(b, v))):
                        snap, pic = values.snapshot(v), frozen(v)
                        m.count("odd_key_looks")
                        run(fn)
                        if values.snapshot(v) != snap or frozen(v) != pic:
                            m.fail("an operation changed a value it was given", operation=what,
                                   schema=repr(b), value=sp.vrepr(v, 600))


def sp_has_schema(v):
    if isinstance(v, list):
        return any(map(sp_has_schema, v))
    if isinstance(v, dict):
        return any(map(sp_has_schema, v.values()))
    return isinstance(v, Schema) or v is ...


DIRECTED = [functools.partial(owned_sizes, i) for i in range(3)] + [_directed(CROWDS[i::4]) for i in range(4)] + [
    alike_crowd] * 6 + [
    _interrupted(i % 4) for i in range(24)] + [reentered] * 12 + [together] * 4
