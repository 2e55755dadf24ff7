"""Helpers shared by the properties."""
from __future__ import annotations

import math

import numpy as np

from vp.gen import *  # noqa: F401,F403
from vp.model import (  # noqa: F401
    MISSING,
    Model,
    default_of,
    domain,
    key,
    lattice,
    legal,
    plain,
    repr_val,
    size_of,
    unit_to_float,
)
from vp.run import Skip, Violation, ensure  # noqa: F401
from vp.spec import *  # noqa: F401,F403
from vp.spec import FLOATS, INTS, NUMS, build_space
from ConfigSpace import Configuration


def part(name, fn, check, quick, thorough=None):
    from vp.gen import strategy

    p = {"name": name, "strategy": strategy(fn), "check": check, "quick": quick}
    if thorough is not None:
        p["thorough"] = thorough
    return p


def ftol(h):
    """Accuracy expected of a real value: rounding to 13 decimals plus a few
    roundings relative to its magnitude and range."""
    mag = max(abs(float(h["lower"])), abs(float(h["upper"])))
    return 2e-13 + 1e-12 * mag


def same_value(h, a, b):
    a, b = plain(a), plain(b)
    if h["k"] in FLOATS:
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        return abs(a - b) <= ftol(h)
    return a == b and isinstance(a, str) == isinstance(b, str)


def same_asg(m, a, b):
    if a is None or b is None or set(a) != set(b):
        return False
    return all(same_value(m.hps[n], a[n], b[n]) for n in a)


def asg_of(cfg):
    return {k: plain(cfg[k]) for k in cfg}


def vec_of(cs, asg):
    v = np.full(len(cs), np.nan)
    for n, x in asg.items():
        v[cs.index_of[n]] = cs[n].to_vector(x)
    return v


def make(cs, asg):
    return Configuration(cs, values=asg)


def same_vec(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    return bool(np.all(np.abs(a[~na] - b[~nb]) <= tol))


def rs(seed):
    return np.random.RandomState(seed)


def kinds_label(spec):
    out = []
    if spec["conds"]:
        out.append("cond")
        if any("parts" in c for c in spec["conds"]):
            out.append("conjunction")
        if any("parts" in p for c in spec["conds"] for p in c.get("parts", ())):
            out.append("nested")
    if spec["forbs"]:
        out.append("forb")
        if any("left" in f for f in spec["forbs"]):
            out.append("relation")
    return out


def raises(fn, *exc):
    """Does fn raise one of exc?  Other exceptions propagate."""
    try:
        fn()
    except exc:
        return True
    return False


_ = (math, INTS, NUMS, build_space)


ATTRS = {
    "uf": ("lower", "upper", "log"),
    "ui": ("lower", "upper", "log"),
    "nf": ("lower", "upper", "log", "mu", "sigma"),
    "ni": ("lower", "upper", "log", "mu", "sigma"),
    "bf": ("lower", "upper", "log", "alpha", "beta"),
    "bi": ("lower", "upper", "log", "alpha", "beta"),
    "cat": ("choices", "weights"),
    "ord": ("sequence",),
    "const": ("value",),
}


def same_attr(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_attr(x, y) for x, y in zip(a, b))
    return a == b and isinstance(a, str) == isinstance(b, str)


def hp_conforms(x, h, meta=True, default=True):
    """Is x the hyperparameter described by h?  Compared attribute by attribute."""
    ensure(type(x) is CLS[h["k"]], f"{h['name']} is a {type(x).__name__}")
    ensure(x.name == h["name"], f"name {x.name!r}, expected {h['name']!r}")
    for a in ATTRS[h["k"]]:
        got, want = getattr(x, a), h.get(a)
        if a == "weights":
            if want is None or got is None:
                ensure(got is None and want is None, f"{h['name']}.weights: {got!r}, not {want!r}")
                continue
            tot = float(sum(want))
            p = [float(v) for v in x.probabilities]
            ensure(all(abs(g - w / tot) <= 1e-12 for g, w in zip(p, want)),
                   f"{h['name']}.probabilities: {p!r}, weights {want!r}")
        ensure(same_attr(got, want), f"{h['name']}.{a}: {got!r}, expected {want!r}")
    if default:
        want = default_of(h)
        ensure(same_attr(x.default_value, want),
               f"default of {h['name']}: {x.default_value!r}, expected {want!r}")
        ensure(bool(x.legal_value(x.default_value)), f"default of {h['name']} is not legal")
    ensure(x.size == size_of(h), f"size of {h['name']}: {x.size!r}")
    if meta:
        ensure(plain(x.meta) == h.get("meta"), f"meta of {h['name']}: {x.meta!r}")


def verdict(cs, m, full):
    """Does the space judge this full assignment (values of inactive ones dropped)
    like the reference model?  Returns True/False for valid/forbidden, None if open."""
    a = m.prune(full)
    if a is None:
        return None
    f = m.forbidden(a)
    if f is None:
        return None
    bad = raises(lambda: make(cs, a), ValueError)
    ensure(bad == f, f"{a!r} is {'refused' if bad else 'accepted'}, expected the opposite")
    if not f:
        for n in m.conds:
            b = dict(a)
            if n in b:
                del b[n]
            else:
                b[n] = full[n]
            ensure(raises(lambda: make(cs, b), ValueError),
                   f"{b!r} accepted although {n} is {'' if n in a else 'not '}active")
    return not f


def conforms(cs, spec, asgs=(), meta=True, clauses=True):
    """Is cs the space described by spec?"""
    m = Model(spec)
    ensure(set(cs) == set(m.hps), f"names {sorted(cs)!r}, expected {sorted(m.hps)!r}")
    for n, h in m.hps.items():
        hp_conforms(cs[n], h, meta)
    pos = {n: i for i, n in enumerate(cs)}
    for n, c in m.conds.items():
        for p in cond_parents(c):
            ensure(pos[p] < pos[n], f"{n} comes before its parent {p}")
    if clauses:
        for what, want, got in (
            ("conditions", [build_cond(c, cs) for c in spec["conds"]], list(cs.conditions)),
            ("forbidden clauses", [build_forb(f, cs) for f in spec["forbs"]],
             list(cs.forbidden_clauses)),
        ):
            ensure(len(want) == len(got), f"{len(got)} {what}, expected {len(want)}: {got!r}")
            for w in want:
                ensure(w in got, f"{what}: {w!r} is missing from {got!r}")
    dflt = m.default_config()
    if dflt is not None:
        got = asg_of(cs.get_default_configuration())
        ensure(same_asg(m, got, dflt), f"default configuration {got!r}, expected {dflt!r}")
    for a in asgs:
        verdict(cs, m, a)
    return m
