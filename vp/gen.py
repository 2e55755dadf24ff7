"""Generators of descriptions (see spec.py).  Everything is drawn through hypothesis
so that failures shrink; everything drawn is well-formed by construction."""
from __future__ import annotations

import functools
import math
import random

import vp.env  # noqa: F401
from hypothesis import strategies as st

from vp.model import (
    Model,
    default_of,
    domain,
    isnum,
    lattice,
    size_of,
)
from vp.spec import FLOATS, INTS, NUMS, forb_names, rechild


@functools.lru_cache(maxsize=None)
def _ints(a, b):
    return st.integers(a, b)


class D:
    """Thin wrapper around hypothesis' draw."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        if a == b:
            return a
        return self.draw(_ints(a, b))

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def chance(self, percent):
        """True with about the given probability; shrinks to False."""
        return self.int(0, 99) >= 100 - percent

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        r = self.int(0, total - 1)
        for x, w in pairs:
            if r < w:
                return x
            r -= w
        raise AssertionError

    def subset(self, xs, lo, hi):
        """Distinct elements, in a drawn order."""
        xs = list(xs)
        n = self.int(min(lo, len(xs)), min(hi, len(xs)))
        return [xs.pop(self.int(0, len(xs) - 1)) for _ in range(n)]

    def shuffle(self, xs):
        return self.subset(xs, len(xs), len(xs))

    def seed(self):
        return self.int(0, 2**16)


def strategy(fn):
    """A strategy from a function of D."""

    @st.composite
    def s(draw):
        return fn(D(draw))

    return s()


NAMES = [
    "a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "p", "q", "r", "s", "t",
    "u", "v", "x", "y", "z", "A", "Z", "aa", "a0", "b_1", "x:y", "lr", "z-2",
]  # fmt: skip  (29 names: a prime)


def names(d, n, pool=NAMES):
    """Distinct names whose alphabetical order is unrelated to their position."""
    start, step = d.int(0, len(pool) - 1), d.int(1, len(pool) - 1)
    return [pool[(start + i * step) % len(pool)] for i in range(n)]


STRS = ["x", "yes", "no", "adam", "b1", "1", "0.5", "True", "ü", "a b", "Z", "None", "X", "Yes",
        "true", "1.0", "x ", "z"]


def values_list(d, lo, hi, mixes):
    """Distinct choice values."""
    mix = d.weighted(mixes)
    if hi > 4 and d.chance(8):  # many
        n = d.int(9, 30)
        return [7 * i % 31 for i in range(n)] if mix in ("int", "num") else [f"v{i}" for i in range(n)]
    n = d.int(lo, hi)
    if mix == "str":
        return d.subset(STRS, n, n)
    if mix == "int":
        return d.subset(list(range(-3, 10)), n, n)
    if mix == "float":
        return d.subset([0.5, -1.25, 3.0, 1e-4, 2.5, 1e6, 0.1], min(n, 7), min(n, 7))
    if mix == "bool":
        return d.subset([True, False], min(n, 2), min(n, 2))
    if mix == "mixed":  # strings next to numbers, None, booleans
        pool = ["x", "1", 1, 2.5, None, False, "no", 7, -2]
        return d.subset(pool, min(n, len(pool)), min(n, len(pool)))
    if mix == "num":
        return d.subset([1, 2.5, -3, 0.25, 8, False], min(n, 6), min(n, 6))
    if mix == "list":
        pool = [[1, 2], [1], ["a", "b"], [1, 2, 3], [], [[1], 2]]
        return d.subset(pool, min(n, len(pool)), min(n, len(pool)))
    if mix == "lists":  # next to other values
        pool = [[1, 2], 3, "a", [1], -2.5, ["b"], None, True]
        return d.subset(pool, min(n, len(pool)), min(n, len(pool)))
    raise ValueError(mix)


PLAIN_MIX = [("str", 6), ("int", 3), ("float", 1), ("bool", 1)]
ALL_MIX = [("str", 6), ("int", 3), ("float", 1), ("bool", 1), ("mixed", 2), ("num", 1)]
LIST_MIX = ALL_MIX + [("list", 1), ("lists", 1)]
SCALES = [1, 1e-1, 10, 1e-3, 1e3, 1e-6, 1e6]
METAS = [None, None, None, {"a": 1}, {"note": "ü \" x", "n": [1, 2.5, None]}]


def _clean(x):
    return round(float(f"{x:.9g}"), 12) + 0.0


def float_bounds(d, log):
    s = d.weighted(list(zip(SCALES, (8, 4, 4, 3, 3, 2, 2))))
    if log:
        lo = _clean(d.int(1, 40) * s)
        up = _clean(lo * d.pick([10, 2, 1.5, 100, 1e4, 1e6]))
    else:
        lo = _clean(d.int(-50, 50) * s)
        up = _clean(lo + d.int(1, 100) * s)
    return lo, up


def int_bounds(d, log, small):
    if small:
        lo = d.int(1, 5) if log else d.int(-4, 4)
        return lo, lo + d.int(1, 4)
    width = d.weighted([("s", 5), ("m", 4), ("l", 3), ("xl", 1)])
    hi = {"s": 8, "m": 60, "l": 5000, "xl": 10**6}[width]
    lo = d.int(1, 50) if log else d.int(-60, 60)
    if d.chance(15):
        lo = d.pick([10**3, 10**5, 10**6]) + (0 if log else -5 * 10**5 * d.int(0, 4))
        if log:
            lo = max(1, lo)
    return lo, lo + d.int(1, hi)


ALL_KINDS = [
    ("cat", 5), ("ui", 4), ("uf", 4), ("ord", 3), ("const", 1),
    ("nf", 1), ("ni", 2), ("bf", 1), ("bi", 2),
]  # fmt: skip
HP_KINDS = [
    ("cat", 3), ("ui", 3), ("uf", 3), ("ord", 2), ("const", 1),
    ("nf", 3), ("ni", 3), ("bf", 3), ("bi", 3),
]  # fmt: skip
FINITE_KINDS = [("cat", 5), ("ui", 4), ("ord", 3), ("const", 1), ("ni", 1), ("bi", 1)]
UNIFORM_KINDS = [("cat", 5), ("ui", 4), ("uf", 4), ("ord", 3), ("const", 1)]


def hp(d, name, kinds=ALL_KINDS, small=False, mixes=PLAIN_MIX, meta=False, weights=True,
       default=70, logs=True, min_choices=1, zero=True):
    """One hyperparameter.  default: percentage with an explicit default (numeric
    ones always have one, so that the reference model need not know midpoints)."""
    k = d.weighted(kinds)
    h = {"k": k, "name": name}
    if k in NUMS:
        h["log"] = log = logs and d.chance(30)
        lo, up = float_bounds(d, log) if k in FLOATS else int_bounds(d, log, small)
        h["lower"], h["upper"] = lo, up
        if k in ("nf", "ni"):
            lat = lattice(h)
            mu = d.pick(lat)
            if d.chance(15) and not log:
                mu = mu + (up - lo) * d.pick([-1, 1, 0.5])
            h["mu"] = float(_clean(mu))
            # on log scale sigma is in log units of lower+sigma: keep away from 1
            sg = (up - lo) * d.pick([0.25, 0.5, 1.0, 0.1, 2.0])
            if log:
                sg = log_sigma(lo, sg)
            h["sigma"] = float(_clean(sg))
        if k in ("bf", "bi"):
            h["alpha"] = float(d.pick([1, 2, 1.5, 3, 8]))
            h["beta"] = float(d.pick([1, 2, 1.5, 3, 8]))
        h["default"] = d.pick(lattice(h))
    elif k == "cat":
        h["choices"] = values_list(d, lo_choices(d, min_choices), 4 if small else d.pick([3, 5, 8]), mixes)
        if weights and d.chance(25):
            w = [d.pick([1, 2, 5, 0.5, 0 if zero else 3]) for _ in h["choices"]]
            if not any(w):
                w[0] = 1
            h["weights"] = [float(x) for x in w]
        if d.chance(default):
            h["default"] = d.pick(h["choices"])
    elif k == "ord":
        h["sequence"] = values_list(d, lo_choices(d, min_choices), 4 if small else d.pick([3, 5, 8]), mixes)
        if d.chance(default):
            h["default"] = d.pick(h["sequence"])
    else:
        pool = ["c", 1, 0.5, "k v", 7, True, -2]
        if any(m == "list" for m, _ in mixes) and d.chance(30):
            pool = [[1, 2], ["a"], [], [5], [[1], 2]]
        h["value"] = d.pick(pool)
    if meta:
        m = d.pick(METAS)
        if m is not None:
            h["meta"] = m
    return h


def lo_choices(d, n):
    return 2 if n < 2 and not d.chance(12) else n


def log_sigma(lo, sg):
    """A spread for log-scaled normals that is not degenerate: the code takes the
    logarithm of lower+sigma-ish quantities, whose zero is excluded."""
    if abs(lo + sg - 1) < 0.05:
        sg = sg * 1.5 + 0.2
    return sg


# --------------------------------------------------------------------- clauses
def literal(d, child, h, ops=None):
    """An atomic condition of child on parent h."""
    lat = lattice(h)
    if h["k"] in FLOATS:
        cand = [("lt", 4), ("gt", 4), ("eq", 1), ("ne", 1), ("in", 1)]
    elif h["k"] in INTS or h["k"] == "ord":
        cand = [("eq", 3), ("ne", 2), ("lt", 3), ("gt", 3), ("in", 3)]
    else:
        cand = [("eq", 4), ("ne", 2), ("in", 3)]
    if ops is not None:
        cand = [(o, w) for o, w in cand if o in ops] or [(ops[0], 1)]
    op = d.weighted(cand)
    c = {"op": op, "child": child, "parent": h["name"]}
    if op == "in":
        c["values"] = members(d, lat)
    else:
        c["value"] = d.pick(lat)
    return c


def members(d, lat):
    """Some values, mostly few."""
    if len(lat) > 4 and d.chance(12):
        n = d.int(4, len(lat))
        start, step = d.int(0, len(lat) - 1), d.pick([1, -1])
        return [lat[(start + i * step) % len(lat)] for i in range(n)]
    return d.subset(lat, 1, 3)


def condition(d, child, hps, ops=None, conj=("and", "or"), nest=1, pconj=40):
    """hps: the possible parents (descriptions)."""
    if conj and d.chance(pconj):
        op = d.pick(list(conj))
        parts = []
        for _ in range(d.int(2, 3) if not d.chance(8) else d.int(4, 5)):
            if nest > 0 and d.chance(20):
                parts.append(condition(d, child, hps, ops, conj, nest - 1, 100))
            else:
                parts.append(literal(d, child, d.pick(hps), ops))
        return {"op": op, "child": child, "parts": parts}
    return literal(d, child, d.pick(hps), ops)


def conditions(d, hps, pcond=55, max_depth=5, ops=None, conj=("and", "or"), nest=1,
               pconj=40, recent=False):
    depth = {}
    out = []
    for i, h in enumerate(hps):
        depth[h["name"]] = 0
        if i == 0 or not d.chance(pcond):
            continue
        # a parent that is deep is possible as long as the depth stays bounded
        cand = [p for p in hps[:i] if depth[p["name"]] < max_depth]
        if ops is not None:
            cand = [p for p in cand if can(p, ops)]
        if not cand:
            continue
        c = None
        if out and d.chance(25):
            # the same condition (or its And/Or twin) for another child
            src = d.pick(out)
            c = rechild(src, h["name"])
            if "parts" in c and conj == ("and", "or") and d.chance(40):
                c["op"] = "or" if c["op"] == "and" else "and"
            elif d.chance(40):
                c = similar(d, c, {x["name"]: x for x in hps})
        if c is None:
            if d.chance(40):
                cand = cand[-2:]
            c = condition(d, h["name"], cand, ops, conj, nest, pconj)
        out.append(c)
        depth[h["name"]] = 1 + max(depth[x] for x in _parents(c))
    return out


def similar(d, c, hps):
    """Almost the same condition: another value, or a part repeated in place of another."""
    if "parts" not in c:
        lat = lattice(hps[c["parent"]])
        if "values" in c:
            return {**c, "values": members(d, lat)}
        return {**c, "value": d.pick(lat)}
    parts = list(c["parts"])
    i, j = d.int(0, len(parts) - 1), d.int(0, len(parts) - 1)
    parts[i] = parts[j] if d.chance(50) else similar(d, parts[i], hps)
    return {**c, "parts": parts}


def _parents(c):
    if "parts" in c:
        return [x for p in c["parts"] for x in _parents(p)]
    return [c["parent"]]


def can(h, ops):
    if set(ops) & {"eq", "in", "ne"}:
        return True
    return h["k"] in NUMS or h["k"] == "ord"


def comparable(a, b):
    """May the values of two hyperparameters be compared with each other?"""

    def kind(h):
        if h["k"] in NUMS:
            return "num"
        vs = domain(h)
        if all(isnum(v) for v in vs):
            return "num"
        if all(isinstance(v, str) for v in vs):
            return "str"
        return None

    return kind(a) is not None and kind(a) == kind(b)


def forb_literal(d, h):
    lat = lattice(h)
    if size_of(h) > 1 and d.chance(40):
        return {"op": "in", "hp": h["name"], "values": members(d, lat)}
    return {"op": "eq", "hp": h["name"], "value": d.pick(lat)}


def relation(d, hps):
    pairs = [(a, b) for a in hps for b in hps if a is not b and comparable(a, b)]
    if not pairs:
        return None
    a, b = d.pick(pairs)
    return {"op": d.pick(["rlt", "rgt", "req"]), "left": a["name"], "right": b["name"]}


def forbidden(d, hps, rel=True, conj=True, nest=True):
    kind = d.weighted([("lit", 3), ("and", 5 if conj else 0), ("rel", 3 if rel else 0)])
    if kind == "rel":
        r = relation(d, hps)
        if r is not None:
            return r
        kind = "lit"
    if kind == "and" and len(hps) > 1:
        parts = []
        used = set()
        for h in d.subset(hps, 2, 3 if not d.chance(12) else 5):
            if rel and d.chance(12):
                r = relation(d, hps)
                if r is not None:
                    parts.append(r)
                    continue
            if h["name"] not in used:
                used.add(h["name"])
                parts.append(forb_literal(d, h))
        if nest and len(parts) >= 3 and d.chance(15):
            parts = [parts[0], {"op": "and", "parts": parts[1:]}]
        if len(parts) >= 2:
            return {"op": "and", "parts": parts}
    return forb_literal(d, d.pick(hps))


def near(d, h, n):
    """Values close to each other."""
    lat = lattice(h)
    if h["k"] in INTS:
        v = d.pick(lat)
        return [x for x in range(v, v + n) if x <= h["upper"]]
    if h["k"] in FLOATS or h["k"] == "ord":
        i = d.int(0, max(0, len(lat) - n))
        return lat[i : i + n]
    return d.subset(lat, min(2, len(lat)), n)


def family(d, hps):
    """Several combinations of a few values of the same hyperparameters."""
    hs = d.subset(hps, 2, 3 if d.chance(30) else 2)
    pools = [near(d, h, d.int(2, 3)) for h in hs]
    out = []
    for _ in range(d.int(2, 6)):
        f = {"op": "and", "parts": [{"op": "eq", "hp": h["name"], "value": d.pick(p)}
                                    for h, p in zip(hs, pools)]}
        if f not in out:
            out.append(f)
    return out


def forbiddens(d, spec, lo=0, hi=3, rel=True, conj=True, any_order=False, nest=True):
    """Forbidden clauses that leave the default configuration allowed.
    any_order: also allowed while conditions are missing."""
    out = []
    m = Model(spec)
    full = m.defaults()
    dflt = m.prune(full)
    cands = [forbidden(d, spec["hps"], rel, conj, nest) for _ in range(d.int(lo, hi))]
    if conj and hi > 1 and len(spec["hps"]) > 1 and d.chance(20):
        cands += family(d, spec["hps"])
    for f in cands:
        if m.forb(f, full if any_order else dflt) is not False:
            continue
        if f in out:
            continue
        if feasible(spec, m, [*out, f]):
            out.append(f)
    return out


def prior_draw(h, rnd, tight=False):
    """A value drawn about as the declared prior would (for feasibility only).
    The spread of log-scaled normals is bracketed: at the mode only, or log-uniform."""
    k = h["k"]
    if k == "cat" and h.get("weights"):
        return rnd.choices(h["choices"], h["weights"])[0]
    if k not in NUMS:
        return rnd.choice(domain(h))
    lo, up = h["lower"], h["upper"]
    if k in ("nf", "ni") and h["log"] and tight:
        v = h["mu"]
    elif k in ("nf", "ni") and not h["log"]:
        for _ in range(20):
            v = rnd.gauss(h["mu"], h["sigma"])
            if lo <= v <= up:
                break
    else:
        u = rnd.betavariate(h["alpha"], h["beta"]) if k in ("bf", "bi") else rnd.random()
        if h["log"]:
            v = math.exp(math.log(lo) + u * (math.log(up) - math.log(lo)))
        else:
            v = lo + u * (up - lo)
    v = min(max(v, lo), up)
    return int(round(v)) if k in INTS else v


def feasible(spec, m, forbs, need=4, of=40):
    """Rejection sampling needs a fair chance: at least a tenth of prior draws must
    be allowed (deterministic pseudo-random estimate)."""
    lognormal = any(h["k"] in ("nf", "ni") and h["log"] for h in m.hps.values())
    for tight in (False, True) if lognormal else (False,):
        rnd = random.Random(len(forbs))
        ok = 0
        for i in range(of):
            a = m.prune({n: prior_draw(h, rnd, tight) for n, h in m.hps.items()})
            if a is not None and not any(m.forb(f, a) for f in forbs):
                ok += 1
                if ok >= need:
                    break
            if ok + of - i - 1 < need:
                return False
        if ok < need:
            return False
    return True


def space(d, nmin=2, nmax=7, kinds=ALL_KINDS, small=False, mixes=PLAIN_MIX, conds=True,
          forbs=(0, 3), rel=True, meta=False, weights=True, pcond=55, ops=None,
          conj=("and", "or"), nest=1, forb_conj=True, any_order=False, pool=NAMES,
          default=70, logs=True, max_depth=5, pconj=40, forb_nest=True, min_choices=1, zero=True):
    n = d.int(nmin, nmax)
    if nmax >= 6 and d.chance(4):
        n += d.int(1, 6)
    nm = names(d, n, pool)
    hps = [
        hp(d, nm[i], kinds, small, mixes, meta, weights, default, logs, min_choices,
           zero)
        for i in range(n)
    ]
    spec = {"hps": hps, "conds": [], "forbs": [], "seed": d.seed()}
    if conds:
        spec["conds"] = conditions(d, hps, pcond, max_depth, ops, conj, nest, pconj)
    # the declaration order is not the topological order
    spec["hps"] = d.shuffle(hps) if d.chance(60) else hps
    if forbs:
        spec["forbs"] = forbiddens(d, spec, forbs[0], forbs[1], rel, forb_conj, any_order,
                                   forb_nest)
    if meta:
        spec["name"] = d.pick([None, "space", "sp ü"])
        spec["meta"] = d.pick(METAS)
    return spec


def web(d, nmin=4, nmax=8, forbs=(0, 1)):
    """Small choices whose conditions reach back over several levels at once: chains with
    short cuts, diamonds, parents of different depth in one conjunction."""
    n = d.int(nmin, nmax)
    nm = names(d, n)
    hps = []
    for x in nm:
        vals = d.pick([["x", "y"], ["x", "y"], ["x", "y", "z"]])
        hps.append({"k": d.pick(["cat", "cat", "ord"]), "name": x, "default": d.pick(vals)})
        hps[-1]["choices" if hps[-1]["k"] == "cat" else "sequence"] = vals
    conds = []
    for i, h in enumerate(hps):
        if i == 0 or not d.chance(88):
            continue
        # near and far ancestors
        ps = d.subset(hps[:i], 1, 3) if d.chance(60) else \
            d.shuffle([hps[0], hps[i - 1], d.pick(hps[:i])])
        lits = []
        for p in ps:
            v = p["default"] if d.chance(60) else d.pick(domain(p))
            lits.append({"op": d.pick(["eq", "eq", "eq", "ne"]), "child": h["name"],
                         "parent": p["name"], "value": v})
        conds.append(lits[0] if len(lits) == 1 else
                     {"op": d.pick(["and", "or"]), "child": h["name"], "parts": lits})
    spec = {"hps": hps, "conds": d.shuffle(conds) if d.chance(50) else conds, "forbs": [],
            "seed": d.seed()}
    spec["hps"] = d.shuffle(hps) if d.chance(60) else hps
    if forbs:
        spec["forbs"] = forbiddens(d, spec, forbs[0], forbs[1], False)
    return spec


def full_assignment(d, spec):
    """A lattice value for every hyperparameter."""
    return {h["name"]: d.pick(lattice(h)) for h in spec["hps"]}


def valid_assignment(d, spec, m=None, tries=3):
    """A valid assignment (falls back to the default one)."""
    m = m or Model(spec)
    for _ in range(tries):
        a = m.prune(full_assignment(d, spec))
        if a is not None and m.forbidden(a) is False:
            return a
    return m.default_config()


__all__ = [
    "D", "strategy", "names", "NAMES", "hp", "space", "full_assignment",
    "valid_assignment", "web", "condition", "conditions", "literal", "forbidden", "forbiddens",
    "forb_literal", "relation", "values_list", "PLAIN_MIX", "ALL_MIX", "LIST_MIX",
    "ALL_KINDS", "HP_KINDS", "FINITE_KINDS", "UNIFORM_KINDS", "math", "default_of", "forb_names",
    "float_bounds", "int_bounds", "METAS", "comparable", "members", "family", "near", "feasible",
]  # fmt: skip
