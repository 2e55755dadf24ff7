"""C09: validation accepts exactly the valid configurations."""
from vp.lib import *
from ConfigSpace.exceptions import (
    ActiveHyperparameterNotSetError,
    ForbiddenValueError,
    IllegalValueError,
    IllegalVectorizedValueError,
    InactiveHyperparameterSetError,
)

RULE = (
    "A case is a space with conditions and forbidden clauses, a valid assignment and 0..3 "
    "defects (unknown name, illegal value, dropped value, added value of an inactive "
    "hyperparameter, changed value, values of a forbidden clause). The reference model gives "
    "the list of problems of the result. Part 'family' asks for every combination of the values of "
    "many clauses about the same hyperparameters. Non-trivial: the assignment is invalid, or the space "
    "has conditions or forbidden clauses."
)
ASSUMPTIONS = ["vectors are finite or NaN"]

KINDS = {
    "illegal": (IllegalValueError, IllegalVectorizedValueError),
    "missing": (ActiveHyperparameterNotSetError,),
    "inactive": (InactiveHyperparameterSetError,),
    "forbidden": (ForbiddenValueError,),
}


def clause_values(f, out):
    if "parts" in f:
        for p in f["parts"]:
            clause_values(p, out)
    elif "hp" in f:
        out[f["hp"]] = f.get("value", (f.get("values") or [None])[0])
    return out


def illegal_value(d, h):
    if h["k"] in NUMS:
        span = h["upper"] - h["lower"]
        cand = [h["upper"] + span, h["lower"] - span, "no such", None]
        if h["k"] in INTS:
            cand.append(h["lower"] + 0.5)
        return d.pick(cand)
    return d.pick(["no such", 1234, -5.5, 77])


def gen(d):
    spec = space(d, 2, 7, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 3), pcond=60)
    m = Model(spec)
    a = dict(valid_assignment(d, spec, m) or {})
    ops = []
    for _ in range(d.weighted([(0, 2), (1, 5), (2, 3), (3, 1)])):
        op = d.weighted([("change", 4), ("forb", 4), ("drop", 3), ("add", 3), ("illegal", 2),
                         ("unknown", 1)])
        h = d.pick(spec["hps"])
        if op == "change":
            if h["name"] in a:
                a[h["name"]] = d.pick(lattice(h))
        elif op == "forb" and spec["forbs"]:
            full = full_assignment(d, spec) if d.chance(40) else {**m.defaults(), **{
                n: v for n, v in a.items() if n in m.hps and legal(m.hps[n], v)}}
            full.update(clause_values(d.pick(spec["forbs"]), {}))
            if d.chance(40):  # values of one clause next to values of another
                other = clause_values(d.pick(spec["forbs"]), {})
                full.update({n: v for n, v in other.items() if d.chance(60)})
            b = m.prune(full)
            if b is not None:
                a = b
        elif op == "drop":
            a.pop(h["name"], None)
        elif op == "add":
            off = [x for x in spec["hps"] if x["name"] not in a]
            if off:
                x = d.pick(off)
                a[x["name"]] = d.pick(lattice(x))
        elif op == "illegal":
            a[h["name"]] = illegal_value(d, h)
        elif op == "unknown":
            a[d.pick(["nope", "", "a\x00", "A B"])] = d.pick([1, "x", None])
        ops.append(op)
    return {"spec": spec, "asg": a, "ops": ops}


def outcome(fn):
    try:
        fn()
    except ValueError as e:
        return e
    return None


def judge(what, e, problems):
    if not problems:
        ensure(e is None, f"{what}: valid, but refused with {type(e).__name__}: {e}")
        return
    ensure(e is not None, f"{what}: accepted although {sorted(problems)}")
    if "unknown" in problems:
        return
    ok = tuple(c for p in problems for c in KINDS[p])
    ensure(isinstance(e, ok), f"{what}: {sorted(problems)}, but reported as {type(e).__name__}: {e}")


def check(case):
    spec, a = case["spec"], case["asg"]
    m = Model(spec)
    cs = build_space(spec)
    p = m.problems(a)
    if p is None:
        raise Skip
    judge(f"values {a!r}", outcome(lambda: make(cs, a)), p)
    judge(f"values {dict(reversed(a.items()))!r}",
          outcome(lambda: make(cs, dict(reversed(a.items())))), p)
    if not p & {"unknown", "illegal"}:
        v = vec_of(cs, a)
        for how, fn in (
            ("vector", lambda: Configuration(cs, vector=v.copy()).check_valid_configuration()),
            ("list vector", lambda: Configuration(cs, vector=v.tolist()).check_valid_configuration()),
            ("space check", lambda: cs.check_configuration(Configuration(cs, vector=v.copy()))),
            ("vector check", lambda: cs.check_configuration_vector_representation(v.copy())),
        ):
            judge(f"{how} of {a!r}", outcome(fn), p)
        # values of inactive hyperparameters allowed: only the rest counts
        live = m.prune_partial(a)
        q = None if live is None else m.problems(live)
        if q is not None:
            judge(f"{a!r} with inactive values allowed",
                  outcome(lambda: Configuration(cs, values=a, allow_inactive_with_values=True)), q)
    labels = ["problem:" + x for x in sorted(p)] + ["valid"] * (not p)
    return labels + kinds_label(spec) if p or spec["conds"] or spec["forbs"] else None


def gen_family(d):
    """Many clauses about the same hyperparameters, asked for every combination."""
    spec = space(d, 2, 4, small=d.chance(30), mixes=ALL_MIX, forbs=None, pcond=35)
    m = Model(spec)
    dflt = m.prune(m.defaults())
    fam = family(d, spec["hps"])
    spec["forbs"] = [f for f in fam if m.forb(f, dflt) is False]
    if d.chance(30):
        spec["forbs"] += [f for f in forbiddens(d, spec, 0, 2) if f not in spec["forbs"]]
    return {"spec": spec, "full": full_assignment(d, spec)}


def check_family(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    vals = {}
    for f in spec["forbs"]:
        for n, v in clause_values(f, {}).items():
            vals.setdefault(n, []).append(v)
    seen = set()
    grid = [{}]
    for n, vs in vals.items():
        grid = [{**g, n: v} for g in grid for v in {repr(v): v for v in vs}.values()][:200]
    for g in grid:
        seen.add(verdict(cs, m, {**case["full"], **g}))
        a = m.prune({**case["full"], **g})
        p = None if a is None else m.problems(a)
        if p is not None:
            judge(f"vector of {a!r}", outcome(
                lambda: Configuration(cs, vector=vec_of(cs, a)).check_valid_configuration()), p)
    return ["family"] if {True, False} <= seen else None


def gen_vec(d):
    spec = space(d, 1, 6, small=d.chance(50), forbs=(0, 2), pcond=60)
    a = dict(valid_assignment(d, spec) or {})
    h = d.pick(spec["hps"])
    if h["k"] in NUMS:
        x = d.pick([-0.25, 1.25, 2.0, -7.0, 1e300])
    elif h["k"] == "const":  # relative to its encoding
        x = d.pick([0.5, 1.0, 3.0])
    else:
        n = size_of(h)
        x = d.pick([-1.0, float(n), n + 5.0, 0.5, n - 0.5, 1e9])
    return {"spec": spec, "asg": a, "name": h["name"], "x": x}


def check_vec(case):
    spec, a, n = case["spec"], case["asg"], case["name"]
    cs = build_space(spec)
    v = vec_of(cs, a)
    i = cs.index_of[n]
    v[i] = case["x"]
    if Model(spec).hps[n]["k"] == "const":
        v[i] += float(cs[n].to_vector(cs[n].default_value))
    for how, fn in (
        ("vector", lambda: Configuration(cs, vector=v.copy()).check_valid_configuration()),
        ("space check", lambda: cs.check_configuration(Configuration(cs, vector=v.copy()))),
    ):
        e = outcome(fn)
        ensure(e is not None, f"{how}: encoding {v[i]} of {n!r} accepted in {v!r}")
        # whether others are missing or inactive depends on how the bad one is read
        some = tuple(c for k in KINDS for c in KINDS[k])
        ensure(isinstance(e, some), f"{how}: reported as {type(e).__name__}: {e}")
        if not Model(spec).children[n]:
            judge(f"{how} {v[i]} of {n!r}", e, {"illegal"} if n in a else {"illegal", "inactive"})
    for bad in (np.append(v, 0.5), v[:-1], np.stack([v, v])):
        ensure(raises(lambda: Configuration(cs, vector=bad), ValueError),
               f"vector of shape {bad.shape} accepted for {len(cs)} hyperparameters")
    return ["active" if n in a else "inactive"]


PARTS = [part("values", gen, check, 5000), part("family", gen_family, check_family, 1500),
         part("vectors", gen_vec, check_vec, 1500)]
