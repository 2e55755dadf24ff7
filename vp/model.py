"""Reference semantics, computed from the plain description only.

Truth values are three-valued: None means that the answer hinges on the rounding
of a real number (two reals closer than 1e-9 relative to their range, but not the
same number) and is left open; oracles skip such questions.
"""
from __future__ import annotations

import itertools
import math

from vp.spec import DISCRETE, FLOATS, INTS, NUMS, cond_parents

MISSING = object()


def and3(xs):
    out = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            out = None
    return out


def or3(xs):
    out = False
    for x in xs:
        if x is True:
            return True
        if x is None:
            out = None
    return out


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def size_of(h):
    k = h["k"]
    if k in FLOATS:
        return math.inf
    if k in INTS:
        return h["upper"] - h["lower"] + 1
    if k == "cat":
        return len(h["choices"])
    if k == "ord":
        return len(h["sequence"])
    return 1


def domain(h):
    """All values of a discrete hyperparameter."""
    k = h["k"]
    if k in INTS:
        return list(range(h["lower"], h["upper"] + 1))
    if k == "cat":
        return list(h["choices"])
    if k == "ord":
        return list(h["sequence"])
    if k == "const":
        return [h["value"]]
    raise ValueError(k)


def unit_to_float(h, t):
    """A clean (short) real number at fraction t of the scale."""
    lo, up = float(h["lower"]), float(h["upper"])
    if t <= 0:
        return lo
    if t >= 1:
        return up
    if h["log"]:
        v = math.exp(math.log(lo) + t * (math.log(up) - math.log(lo)))
        digits = 6 - math.floor(math.log10(abs(v))) if v else 6
    else:
        v = lo + t * (up - lo)
        digits = 6 - math.floor(math.log10(up - lo))
    v = round(v, min(12, digits))
    return min(max(v, lo), up)


LATTICE = 32


def lattice(h):
    """A finite list of legal values used by generators (all, if there are few)."""
    k = h["k"]
    if k in FLOATS:
        out = []
        for i in range(LATTICE + 1):
            v = unit_to_float(h, i / LATTICE)
            if not out or v != out[-1]:
                out.append(v)
        return out
    if k in INTS and size_of(h) > 40:
        lo, up = h["lower"], h["upper"]
        s = {lo + j for j in range(6)} | {up - j for j in range(6)}
        for i in range(1, 16):
            if h["log"]:
                v = math.exp(math.log(lo) + i / 16 * (math.log(up) - math.log(lo)))
                s.add(min(max(int(v), lo), up))
            else:
                s.add(lo + (up - lo) * i // 16)
        return sorted(s)
    return domain(h)


def legal(h, v):
    """Is v one of the declared values?  For plain Python values."""
    k = h["k"]
    if k in NUMS:
        if not isnum(v) or v != v:
            return False
        if not h["lower"] <= v <= h["upper"]:
            return False
        return k in FLOATS or v == int(v)
    return any(type_eq(v, c) for c in domain(h))


def type_eq(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str)


def default_of(h):
    if "default" in h:
        return h["default"]
    k = h["k"]
    if k == "const":
        return h["value"]
    if k == "ord":
        return h["sequence"][0]
    if k == "cat":
        w = h.get("weights")
        if w is None:
            return h["choices"][0]
        return h["choices"][w.index(max(w))]
    raise ValueError("generators give numeric hyperparameters an explicit default")


def close(h, a, b):
    """Too close to tell (but not identical)."""
    if a == b:
        return False
    rng = float(h["upper"]) - float(h["lower"])
    tol = 1e-9 * max(rng, abs(a), abs(b))
    if h["log"]:
        tol = 1e-9 * max(abs(a), abs(b))
    return abs(a - b) <= tol


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.hps = {h["name"]: h for h in spec["hps"]}
        self.conds = {c["child"]: c for c in spec["conds"]}
        self.forbs = spec["forbs"]
        self.order = self._order()
        self.children = {n: [] for n in self.hps}
        for n, c in self.conds.items():
            for p in cond_parents(c):
                self.children[p].append(n)

    def _order(self):
        out, done = [], set()

        def visit(n):
            if n in done:
                return
            done.add(n)
            if n in self.conds:
                for p in cond_parents(self.conds[n]):
                    visit(p)
            out.append(n)

        for n in self.hps:
            visit(n)
        return out

    # -------- clauses
    def cond(self, c, asg):
        op = c["op"]
        if op == "and":
            return and3([self.cond(p, asg) for p in c["parts"]])
        if op == "or":
            return or3([self.cond(p, asg) for p in c["parts"]])
        v = asg.get(c["parent"], MISSING)
        if v is MISSING:
            return False
        h = self.hps[c["parent"]]
        if op == "in":
            return or3([self._same(h, v, x) for x in c["values"]])
        x = c["value"]
        if op == "eq":
            return self._same(h, v, x)
        if op == "ne":
            r = self._same(h, v, x)
            return None if r is None else not r
        if h["k"] == "ord":
            v, x = h["sequence"].index(v), h["sequence"].index(x)
        elif h["k"] in FLOATS and close(h, v, x):
            return None
        return v < x if op == "lt" else v > x

    def _same(self, h, a, b):
        if h["k"] in FLOATS and close(h, a, b):
            return None
        return a == b

    def forb(self, f, asg):
        op = f["op"]
        if op == "and":
            return and3([self.forb(p, asg) for p in f["parts"]])
        if op in ("eq", "in"):
            v = asg.get(f["hp"], MISSING)
            if v is MISSING:
                return False
            h = self.hps[f["hp"]]
            vals = [f["value"]] if op == "eq" else f["values"]
            return or3([self._same(h, v, x) for x in vals])
        a, b = asg.get(f["left"], MISSING), asg.get(f["right"], MISSING)
        if a is MISSING or b is MISSING:
            return False
        for n in (f["left"], f["right"]):
            h = self.hps[n]
            if h["k"] in FLOATS and f["left"] != f["right"]:
                rng = float(h["upper"]) - float(h["lower"])
                if abs(a - b) <= 1e-9 * max(rng, abs(a), abs(b)):
                    return None
        if op == "rlt":
            return a < b
        if op == "rgt":
            return a > b
        return a == b

    # -------- activation
    def active(self, asg):
        """Active names for a full assignment (values of inactive ones are ignored).
        A missing value of an active hyperparameter counts as not set.  Returns None
        if the answer hinges on rounding."""
        live = {}
        act = set()
        for n in self.order:
            if n in self.conds:
                r = self.cond(self.conds[n], live)
                if r is None:
                    return None
                if not r:
                    continue
            act.add(n)
            if n in asg:
                live[n] = asg[n]
        return act

    def prune(self, full):
        act = self.active(full)
        if act is None:
            return None
        return {n: full[n] for n in self.order if n in act}

    def prune_partial(self, asg):
        """Drop the values of inactive hyperparameters; others may be missing."""
        act = self.active(asg)
        if act is None:
            return None
        return {n: v for n, v in asg.items() if n in act}

    def forbidden(self, asg):
        return or3([self.forb(f, asg) for f in self.forbs])

    def defaults(self):
        return {n: default_of(h) for n, h in self.hps.items()}

    def default_config(self):
        return self.prune(self.defaults())

    def problems(self, asg):
        """The set of reasons for which an assignment is invalid (None: undecided)."""
        out = set()
        for n, v in asg.items():
            if n not in self.hps:
                out.add("unknown")
            elif not legal(self.hps[n], v):
                out.add("illegal")
        if out:
            return out
        # literally: every condition is evaluated on what is set
        live = {}
        for n in self.order:
            r = True
            if n in self.conds:
                r = self.cond(self.conds[n], live)
                if r is None:
                    return None
            if r and n not in asg:
                out.add("missing")
            elif not r and n in asg:
                out.add("inactive")
            if n in asg:
                live[n] = asg[n]
        f = self.forbidden(asg)
        if f is None and not out:
            return None
        if f:
            out.add("forbidden")
        return out

    def valid(self, asg):
        p = self.problems(asg)
        return None if p is None else not p

    # -------- edits
    def set_value(self, asg, name, value):
        """Assign one value; returns (new assignment, problems)."""
        new = dict(asg)
        new[name] = value
        out = {}
        for n in self.order:
            r = True
            if n in self.conds:
                r = self.cond(self.conds[n], out)
                if r is None:
                    return None, None
            if n == name:
                if not r:
                    return None, {"inactive"}
                out[n] = value
            elif r:
                out[n] = new[n] if n in new else default_of(self.hps[n])
        f = self.forbidden(out)
        if f is None:
            return None, None
        if f:
            return None, {"forbidden"}
        return out, set()

    # -------- enumeration
    def n_full(self):
        n = 1
        for h in self.hps.values():
            n *= size_of(h)
        return n

    def enumerate(self, grids=None, limit=None):
        """All valid assignments of a finite space (or over given grids), as dicts.
        Built hyperparameter by hyperparameter in topological order."""
        grids = grids or {n: domain(h) for n, h in self.hps.items()}
        partial = [{}]
        for n in self.order:
            nxt = []
            for a in partial:
                r = True
                if n in self.conds:
                    r = self.cond(self.conds[n], a)
                    if r is None:
                        return None
                if not r:
                    nxt.append(a)
                else:
                    for v in grids[n]:
                        b = dict(a)
                        b[n] = v
                        nxt.append(b)
                if limit is not None and len(nxt) > limit:
                    return None
            partial = nxt
        out = []
        for a in partial:
            f = self.forbidden(a)
            if f is None:
                return None
            if not f:
                out.append(a)
        return out


def key(asg):
    """A hashable, order-free key of an assignment."""
    return tuple(sorted((n, repr_val(v)) for n, v in asg.items()))


def repr_val(v):
    v = plain(v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == int(v) and abs(v) < 2**53:
        v = int(v)
    return repr(v)


def plain(v):
    """numpy scalars to plain Python ones."""
    if hasattr(v, "item") and getattr(v, "ndim", 0) == 0:
        return v.item()
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


__all__ = [n for n in dir() if not n.startswith("_")] + ["itertools", "DISCRETE"]
