"""C22: malformed spaces and hyperparameters are refused, well-formed ones accepted."""
from vp.lib import *
from ConfigSpace import (
    ConfigurationSpace,
    Constant,
    ForbiddenAndConjunction,
    InCondition,
    OrConjunction,
)
from ConfigSpace.exceptions import (
    AmbiguousConditionError,
    ChildNotFoundError,
    CyclicDependancyError,
    ForbiddenValueError,
    HyperparameterAlreadyExistsError,
    HyperparameterNotFoundError,
    ParentNotFoundError,
)

RULE = (
    "A case is a well-formed hyperparameter or space, which must be accepted, and the same with "
    "one injected defect (or a change to the edge of what is allowed), which must be refused "
    "(or accepted). Every case is non-trivial."
)
ASSUMPTIONS = [
    "a hyperparameter is refused by any of the usual errors for bad arguments; additions to a "
    "space are refused with the documented error of the package",
]

REFUSED = (ValueError, TypeError, ArithmeticError, LookupError)
NAN, INF = float("nan"), float("inf")


# ---------------------------------------------------------------- hyperparameters
def gen_hp(d):
    h = hp(d, "h", HP_KINDS, small=d.chance(30), mixes=LIST_MIX, meta=d.chance(20))
    k = h["k"]
    bad = dict(h)
    if k in NUMS:
        lo, up = h["lower"], h["upper"]
        w = up - lo
        ops = ["swap", "equal", "below", "above", "nonfinite", "default nan", "at lower", "at upper"]
        if h["log"]:
            ops += ["zero", "negative"]
        if k in INTS:
            ops += ["fraction", "near"]
        if k in ("nf", "ni"):
            ops += ["sigma"] + (["mu"] if h["log"] else [])
        if k in ("bf", "bi"):
            ops += ["alpha", "beta"]
        op = d.pick(ops)
        step = 1 if k in INTS else w * d.pick([1e-3, 1.0, 0.1, 50.0])
        if op == "swap":
            bad["lower"], bad["upper"] = up, lo
        elif op == "equal":
            bad["upper"] = bad["lower"]
            bad["default"] = bad["lower"]
        elif op == "below":
            bad["default"] = lo - step
        elif op == "above":
            bad["default"] = up + step
        elif op == "nonfinite":
            bad[d.pick(["lower", "upper"])] = d.pick([NAN, INF, -INF])
        elif op == "default nan":
            bad["default"] = d.pick([NAN, INF, -INF])
        elif op == "zero":
            bad["lower"] = 0
        elif op == "negative":
            bad["lower"] = -d.int(1, 9)
        elif op == "fraction":
            bad["default"] = d.int(lo, up - 1) + d.pick([0.5, 0.25, 0.9])
        elif op == "near":  # whole up to rounding
            bad["default"] = d.pick(lattice(h))
        elif op == "sigma":
            bad["sigma"] = d.pick([0.0, -1.0, NAN])
        elif op == "mu":
            bad["mu"] = d.pick([0.0, -2.0])
        elif op in ("alpha", "beta"):
            bad[op] = d.pick([0.5, 0.0, -1.0, 0.999])
        elif op == "at lower":
            bad["default"] = lo
        else:
            bad["default"] = up
    elif k in ("cat", "ord"):
        key_ = "choices" if k == "cat" else "sequence"
        vs = h[key_]
        ops = ["duplicate", "same object", "empty", "default", "typed"]
        if k == "cat":
            ops += ["short", "long", "negative w", "zero w", "nonfinite w", "set w", "one zero"]
        op = d.pick(ops)
        if op in ("duplicate", "same object"):
            i = d.int(0, len(vs) - 1)
            v = vs[i]
            if op == "duplicate" and v in (0, 1) and isinstance(v, (int, float)):
                v = d.pick([int(v), float(v), bool(v)])
            new = list(vs)
            new.insert(d.int(0, len(vs)), v)
            bad[key_] = new
            if h.get("weights"):
                bad["weights"] = [*h["weights"], 1.0]
        elif op == "empty":
            bad[key_] = []
            bad.pop("default", None)
            bad.pop("weights", None)
        elif op == "default":
            bad["default"] = d.pick(["nope", None, 99, -0.125, [9], "2.5 "])
            if bad["default"] in vs:
                bad["default"] = "nope"
        elif op == "typed":  # a text next to the number it looks like is fine
            bad[key_] = [1, "1", *[v for v in vs if v not in (1, "1")]]
            bad["default"] = d.pick([1, "1"])
            bad.pop("weights", None)
        else:
            n = len(vs)
            w = [float(d.pick([1, 2, 0.5])) for _ in vs]
            if op == "short":
                w = w[:-1]
            elif op == "long":
                w = [*w, 1.0]
            elif op == "negative w":
                w[d.int(0, n - 1)] = d.pick([-1.0, -1e-9, -5.0])
            elif op == "zero w":
                w = [0.0] * n
            elif op == "nonfinite w":
                w[d.int(0, n - 1)] = d.pick([NAN, INF])
            elif op == "one zero":
                w = [*w[:-1], 0.0] if n > 1 else w
            bad["weights"] = w
    else:
        op = "name"
    return {"h": h, "op": op, "bad": bad}


FINE = ("at lower", "at upper", "typed", "one zero")


def check_hp(case):
    hp_conforms(build_hp(case["h"]), case["h"])
    op, bad = case["op"], case["bad"]
    if op == "near":
        for v in (np.nextafter(bad["default"], -np.inf), np.nextafter(bad["default"], np.inf)):
            hp_conforms(build_hp(dict(bad, default=float(v))), bad)
        return [op]
    if op in FINE:
        hp_conforms(build_hp(bad), bad)
        return [op]
    kw = hp_kwargs(bad)
    cls = CLS[bad["k"]]
    if op == "name":
        kw["name"] = 3
    elif op == "set w":
        kw["weights"] = set(kw["weights"])
    elif op == "same object":
        key_ = "choices" if bad["k"] == "cat" else "sequence"
        seen = {}
        kw[key_] = [seen.setdefault(repr(x), x) for x in kw[key_]]
    try:
        x = cls(**kw)
    except REFUSED:
        return [op]
    raise Violation(f"{op}: accepted as {x!r}")


# ------------------------------------------------------------------------ spaces
OPS = [
    "duplicate", "duplicate in batch", "unknown child", "unknown parent", "unknown in conjunction",
    "ambiguous", "ambiguous part", "cycle", "ring", "self", "illegal value", "illegal in", "unorderable",
    "mixed children", "not a condition", "one part", "unknown forbidden", "unknown relation",
    "unknown in forbidden", "illegal forbidden", "illegal forbidden in", "forbidden default",
    "not a clause", "not a hyperparameter", "not addable",
]  # fmt: skip


def gen_space(d):
    spec = space(d, 2, 7, small=d.chance(50), mixes=ALL_MIX, forbs=(0, 2), pcond=60)
    return {"spec": spec, "op": d.pick(OPS), "r": [d.int(0, 999) for _ in range(6)],
            "form": d.pick(["add", "batch"])}


def check_space(case):
    spec, op, r = case["spec"], case["op"], case["r"]
    m = Model(spec)
    cs = build_space(spec)
    hps = spec["hps"]
    names_ = [h["name"] for h in hps]
    pick = lambda xs, i: xs[r[i] % len(xs)]  # noqa: E731
    value = lambda h, i: pick(lattice(h), i)  # noqa: E731
    free = [h for h in hps if h["name"] not in m.conds]  # no condition yet
    up = {n: set() for n in names_}  # ancestors
    for n in m.order:
        for p in cond_parents(m.conds[n]) if n in m.conds else ():
            up[n] |= {p} | up[p]
    a, b = pick(hps, 0), pick(hps, 1)
    x = cs[a["name"]]
    extra = UniformIntegerHyperparameter("not there", 0, 9)
    tag = None

    def refused(make_it, *exc):
        """The object cannot be made, or cannot be added."""
        try:
            if case["form"] == "add":
                cs.add(make_it())
            else:
                cs.add([Constant("also new", 1), make_it()])
        except exc:
            return
        raise Violation(f"{op} accepted: {list(cs.conditions)!r} {list(cs.forbidden_clauses)!r}")

    def legal_eq(child, parent, i=2):
        return EqualsCondition(child, cs[parent["name"]], value(parent, i))

    if op == "duplicate":
        # the very same, an equal one, or a different one of the same name
        y = [x, build_hp(a), Constant(a["name"], 5), UniformFloatHyperparameter(a["name"], 0, 1)][r[2] % 4]
        refused(lambda: y, HyperparameterAlreadyExistsError)
    elif op == "duplicate in batch":
        y = [Constant("new", 1), UniformFloatHyperparameter("new", 0, 1)]
        refused(lambda: [y[0], y[r[2] % 2]], HyperparameterAlreadyExistsError)
    elif op == "unknown child":
        refused(lambda: legal_eq(extra, a), ChildNotFoundError)
    elif op == "unknown parent":
        if not free:
            raise Skip
        refused(lambda: EqualsCondition(cs[pick(free, 0)["name"]], extra, 3), ParentNotFoundError)
    elif op == "unknown in conjunction":
        cand = [h for h in free if len(hps) > 1]
        if not cand:
            raise Skip
        c = pick(cand, 0)
        others = [h for h in hps if h is not c and c["name"] not in up[h["name"]]]
        if not others:
            raise Skip
        parts = [legal_eq(cs[c["name"]], pick(others, 1)), EqualsCondition(cs[c["name"]], extra, 3)]
        if r[3] % 2:
            parts.reverse()
        cls = AndConjunction if r[4] % 2 else OrConjunction
        refused(lambda: cls(*parts), ParentNotFoundError)
    elif op in ("ambiguous", "ambiguous part"):
        if not m.conds:
            raise Skip
        n = pick(sorted(m.conds), 0)
        others = [h for h in hps if h["name"] != n and n not in up[h["name"]]]
        p = pick(others, 1)
        new = {"op": "eq", "child": n, "parent": p["name"], "value": value(p, 2)}
        if op == "ambiguous part":
            new = {"op": "and" if r[3] % 2 else "or", "child": n, "parts": [m.conds[n], new]}
        if build_cond(new, cs) == build_cond(m.conds[n], cs):
            raise Skip
        refused(lambda: build_cond(new, cs), AmbiguousConditionError)
    elif op == "cycle":
        # a free ancestor is made to depend on one of its descendants
        pairs = [(n, c) for c in names_ for n in sorted(up[c]) if n not in m.conds]
        if not pairs:
            raise Skip
        n, c = pick(pairs, 0)
        h = m.hps[c]
        tag = f"cycle of {len(up[c])}"
        if r[3] % 3 == 0:
            others = [q for q in hps if q["name"] not in (n, c) and n not in up[q["name"]]]
            if others:
                parts = [legal_eq(cs[n], pick(others, 4)), legal_eq(cs[n], h)]
                refused(lambda: OrConjunction(*parts), CyclicDependancyError)
                return [op, tag]
        refused(lambda: legal_eq(cs[n], h), CyclicDependancyError)
    elif op == "ring":
        # several new or free hyperparameters depend on each other in a circle
        k = 2 + r[0] % 4
        ring = [Constant(f"ring{i}", 1) for i in range(k)]
        if r[5] % 3 == 0:
            ring[0] = UniformIntegerHyperparameter("ring0", 1, 1 + k)
        have = [h for h in free if r[5] % 2]
        if have:
            ring[r[1] % k] = cs[pick(have, 2)["name"]]
        conds = []
        for i in range(k):
            parent = ring[i - 1]
            c = EqualsCondition(ring[i], parent, parent.default_value)
            if (r[2] >> i) % 4 == 0:
                c = OrConjunction(c, NotEqualsCondition(ring[i], parent, parent.default_value))
            conds.append(c)
        s = r[3] % k
        conds = conds[s:] + conds[:s]
        if r[4] % 2:
            conds.reverse()
        new = [y for y in ring if y.name not in cs]
        how = r[4] % 3
        tag = f"ring of {k} {'once, apart, onto'.split(', ')[how]}"
        if how == 0:
            refused(lambda: [*new, *conds], CyclicDependancyError)
        elif how == 1:  # the others are fine on their own
            cs.add(new)
            for c in conds[:-1]:
                cs.add(c)
            refused(lambda: conds[-1], CyclicDependancyError)
        else:
            cs.add(new)
            refused(lambda: conds, CyclicDependancyError)
    elif op == "self":
        kind = r[3] % 3
        v = value(a, 2)
        if kind == 0:
            refused(lambda: EqualsCondition(x, x, v), ValueError)
        elif kind == 1:
            refused(lambda: InCondition(x, build_hp(a), [v]), ValueError)
        else:
            refused(lambda: NotEqualsCondition(build_hp(a), x, v), ValueError)
    elif op in ("illegal value", "illegal in", "illegal forbidden", "illegal forbidden in"):
        v = bad_value(a, r)
        h = build_hp(a)
        child = Constant("child", 1)
        ok = value(a, 4)
        if op == "illegal value":
            cls = [EqualsCondition, NotEqualsCondition, LessThanCondition, GreaterThanCondition]
            refused(lambda: cls[r[5] % 4](child, h, v), ValueError)
        elif op == "illegal in":
            refused(lambda: InCondition(child, h, [ok, v] if r[5] % 2 else [v]), ValueError)
        elif op == "illegal forbidden":
            refused(lambda: ForbiddenEqualsClause(h, v), ValueError)
        else:
            refused(lambda: ForbiddenInClause(h, [ok, v] if r[5] % 2 else [v]), ValueError)
    elif op == "unorderable":
        if a["k"] not in ("cat", "const"):
            raise Skip
        cls = [LessThanCondition, GreaterThanCondition][r[5] % 2]
        refused(lambda: cls(Constant("child", 1), x, value(a, 2)), ValueError)
    elif op == "mixed children":
        c1, c2 = Constant("c1", 1), UniformFloatHyperparameter("c2", 0, 1)
        cls = AndConjunction if r[4] % 2 else OrConjunction
        refused(lambda: cls(legal_eq(c1, a), legal_eq(c2, b, 3)), ValueError)
    elif op == "not a condition":
        c1 = Constant("c1", 1)
        cls = AndConjunction if r[4] % 2 else OrConjunction
        refused(lambda: cls(legal_eq(c1, a), pick([x, "text", None, 1], 5)), TypeError)
    elif op == "one part":
        cls = AndConjunction if r[4] % 2 else OrConjunction
        c1 = Constant("c1", 1)
        refused(lambda: cls(*([legal_eq(c1, a)] if r[5] % 2 else [])), ValueError)
    elif op == "unknown forbidden":
        refused(lambda: [ForbiddenEqualsClause(extra, 3), ForbiddenInClause(extra, [3, 4])][r[5] % 2],
                HyperparameterNotFoundError)
    elif op == "unknown relation":
        other = UniformIntegerHyperparameter("nor this", 0, 9)
        num = [h for h in hps if h["k"] in NUMS]
        y = cs[pick(num, 2)["name"]] if num else other
        cls = [ForbiddenLessThanRelation, ForbiddenEqualsRelation, ForbiddenGreaterThanRelation][r[4] % 3]
        refused(lambda: cls(*((extra, y) if r[5] % 2 else (y, extra))), HyperparameterNotFoundError)
    elif op == "unknown in forbidden":
        bad = ForbiddenEqualsClause(extra, 3)
        good = ForbiddenEqualsClause(x, value(a, 2))
        parts = [good, bad] if r[3] % 2 else [bad, good]
        if r[4] % 3 == 0:
            parts = [good, ForbiddenAndConjunction(bad, ForbiddenEqualsClause(cs[b["name"]], value(b, 4)))]
        refused(lambda: ForbiddenAndConjunction(*parts), HyperparameterNotFoundError)
    elif op == "forbidden default":
        dflt = m.default_config()
        act = sorted(dflt)
        ns = [act[r[i] % len(act)] for i in range(2)]
        kind = r[3] % 4
        lits = [ForbiddenEqualsClause(cs[n], dflt[n]) for n in ns]
        if kind == 0:
            f = lits[0]
        elif kind == 1:
            f = ForbiddenInClause(cs[ns[0]], [dflt[ns[0]], value(m.hps[ns[0]], 4)])
        elif kind == 2:
            f = ForbiddenAndConjunction(*lits)
        else:
            pairs = [(p, q) for p in act for q in act if p != q and comparable(m.hps[p], m.hps[q])
                     and dflt[p] != dflt[q]]
            if not pairs:
                raise Skip
            p, q = pick(pairs, 4)
            cls = ForbiddenLessThanRelation if dflt[p] < dflt[q] else ForbiddenGreaterThanRelation
            f = cls(cs[p], cs[q])
        refused(lambda: f, ForbiddenValueError)
    elif op == "not a clause":
        good = ForbiddenEqualsClause(x, value(a, 2))
        refused(lambda: ForbiddenAndConjunction(good, pick([x, "text", None], 5)), TypeError)
    elif op == "not a hyperparameter":
        bad = pick(["text", 1, None], 5)
        cls = [ForbiddenLessThanRelation, ForbiddenEqualsRelation, ForbiddenGreaterThanRelation][r[4] % 3]
        refused(lambda: cls(*((x, bad) if r[3] % 2 else (bad, x))), TypeError)
    else:
        bad = pick([1, None, 2.5, [None], {"a": 3}.values()], 5)
        refused(lambda: bad, TypeError)
    return [op] + ([tag] if tag else [])


def bad_value(h, r):
    """A value that the hyperparameter clearly does not have."""
    if h["k"] in NUMS:
        w = h["upper"] - h["lower"]
        cand = [h["upper"] + w, h["lower"] - w, "text", None]
        if h["k"] in INTS:
            cand += [h["upper"] + 1, h["lower"] - 1, h["lower"] + 0.5]
    else:
        cand = [v for v in ("nope", 99, -0.125, None, "1 ") if v not in domain(h)]
    return cand[r[3] % len(cand)]


PARTS = [part("hyperparameter", gen_hp, check_hp, 4000), part("space", gen_space, check_space, 4000)]
