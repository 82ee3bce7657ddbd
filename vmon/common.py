"""Helpers shared by the property workloads."""
import math

import d42
from d42.utils import from_native, make_required, rollout  # noqa: F401

from . import sched, spec as sp, specgen, values

_env = None


def env():
    global _env
    if _env is None:
        _env = sp.Env()
    return _env


def verdict(m, b, v, what="validate", **w):
    """True if d42 accepts."""
    res = m.call(what, d42.validate, b, v, witness=dict(w, schema=d42_repr(b), value=sp.vrepr(v)))
    return not res.has_errors()


def d42_repr(b):
    try:
        return repr(b)[:1500]
    except Exception as e:
        return "<repr raised %r>" % type(e)


def fake(m, b, schedule, **w):
    with sched.scheduled(schedule):
        x = m.call("fake", d42.fake, b, witness=dict(w, schema=d42_repr(b), rng=schedule.mode))
    m.count("draws", schedule.draws)
    return x


def partial(v, rng, p=0.4):
    """Drop dict keys at random depths."""
    if type(v) is dict:
        return {k: partial(x, rng, p) for k, x in v.items() if not rng.chance(p)}
    if type(v) is list:
        return [partial(x, rng, p * 0.7) for x in v]
    return v


def is_plain(v):
    """Built from the types `from_native` documents (exact types, no `...`)."""
    if type(v) is list:
        return all(is_plain(x) for x in v)
    if type(v) is dict:
        return all(k is not Ellipsis and not isinstance(k, d42.optional) and is_plain(x)
                   for k, x in v.items())
    if isinstance(v, sp.uuid.UUID):
        return type(v) is sp.uuid.UUID and v.version == 4
    return v is None or type(v) in (bool, int, float, str, bytes, sp.dt.datetime, sp.dt.date)


def precisions(s, acc=None):
    acc = [] if acc is None else acc
    if s.kind == "float" and s.has("precision"):
        acc.append(s.a["precision"])
    for x in sp.children(s):
        precisions(x, acc)
    return acc


def carries(v, w, tol=None):
    """w carries the substituted data v.  tol: absolute float tolerance (declared precision)."""
    if isinstance(v, dict):
        return isinstance(w, dict) and all(k in w and carries(x, w[k], tol) for k, x in v.items())
    if isinstance(v, list):
        return isinstance(w, list) and len(v) == len(w) and \
            all(carries(x, y, tol) for x, y in zip(v, w))
    if isinstance(v, float) or isinstance(w, float):
        if not (isinstance(v, float) and isinstance(w, float)):
            return False
        if v != v or w != w:
            return v != v and w != w
        if v == w or math.isclose(v, w, rel_tol=4e-9):
            return True
        return tol is not None and abs(v - w) <= tol * 1.01
    if (v is None) != (w is None):
        return False
    return bool(v == w)


def complete(s, v, rng):
    """Extend the partial value v to one the normalised spec s may accept; keys that v does not
    mention take sampled values.  None-able: returns MISSING when there is no simple completion."""
    if s.kind == "dict" and isinstance(v, dict) and s.has("keys"):
        out = {}
        declared = {k for k, _, _ in s.a["keys"]}
        for k, sub, opt in s.a["keys"]:
            if k in v:
                x = complete(sub, v[k], rng)
                if x is sp.MISSING:
                    return x
                out[k] = x
            elif not opt or rng.chance(0.5):
                out[k] = sp.sample(sub, rng, 2)
        for k in v:
            if k not in declared:
                out[k] = v[k]
        if s.get("relaxed") and rng.chance(0.4):
            for k in ("zz9", ("q", 1)):
                if k not in declared and k not in v:
                    out[k] = values.plain_value(rng, 1)
        return out
    if s.kind == "list" and isinstance(v, list):
        if s.has("elem"):
            out = [complete(s.a["elem"], x, rng) for x in v]
        elif s.has("elems") and not (s.get("head") and s.get("tail")):
            ws = sp.windows(s, len(v))
            if not ws:
                return sp.MISSING
            out = list(v)
            for i, e in enumerate(s.a["elems"]):
                out[ws[0] + i] = complete(e, v[ws[0] + i], rng)
        else:
            return v if sp.conforms(s, v) else sp.MISSING
        return sp.MISSING if any(x is sp.MISSING for x in out) else out
    return v if sp.conforms(s, v) else sp.MISSING


def probe_values(n, rng, count=6, zoo=False):
    """Conforming values, perturbations, boundary injections and unrelated values for spec n."""
    out = []
    base = None
    for i in range(count):
        r = rng.random()
        if base is None or r < 0.3:
            base = sp.sample(n, rng)
            out.append(base)
        elif r < 0.6:
            out.append(values.perturb(rng.pick(out) if rng.chance(.3) else base, rng)[1])
        elif r < 0.9:
            pos = sp.sub_positions(n, base)
            path, s2, _ = rng.pick(pos)
            bs = values.boundary(s2, rng)
            if not bs:
                bs = [sp.sample(s2, rng)] if sp.sat(s2) else [None]
            out.append(sp.set_at(base, path, rng.pick(bs)))
        elif zoo and r < 0.96:
            z = values.zoo(rng)
            out.append(z if rng.chance(0.4) else
                       sp.set_at(base, rng.pick(values.positions(base)), z))
        else:
            out.append(values.plain_value(rng, 2))
    return out


def drop_each_key(v, limit=6):
    """Copies of v with one dict key removed, at any depth."""
    out = []
    for p in values.positions(v):
        d = sp.get_at(v, p)
        if type(d) is dict:
            for k in d:
                out.append(sp.set_at(v, p, {a: b for a, b in d.items() if a is not k}))
                if len(out) >= limit:
                    return out
    return out


def rename_keys(v, rng, limit=3):
    """Copies of v in which one dict key at any depth gives way to, or is joined by, a similar one
    that holds the same or another value."""
    out = []
    spots = [(p, k) for p in values.positions(v) for d in [sp.get_at(v, p)] if type(d) is dict
             for k in d]
    rng.shuffle(spots)
    for p, k in spots[:limit]:
        d = dict(sp.get_at(v, p))
        held = d[k]
        if rng.chance(.7):
            del d[k]
        d[values.near_key(k, rng)] = held if rng.chance(.4) else \
            rng.pick([None, "x", 1, [], {}, values.near(held, rng)])
        if rng.chance(.3):
            d = dict(reversed(list(d.items())))
        out.append(sp.set_at(v, p, d))
    return out


def gen(rng, **opt):
    return specgen.Gen(rng, **opt)


def dict_equal(a, b):
    """Strict deep equality that ignores the order of dict keys."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and dict_equal(x, b[k]) for k, x in a.items()) \
            and all(any(type(k) is type(j) and k == j for j in b) or k != k for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(dict_equal(x, y) for x, y in zip(a, b))
    return values.same(a, b)
