"""C30: the estimated size bounds, and without constraints equals, the number of points."""
from vp.lib import *
from ConfigSpace import ConfigurationSpace
from ConfigSpace.util import generate_grid

RULE = (
    "A case is a space. Finite ones are enumerated by the reference model (and, when small, by "
    "collecting the distinct values of each hyperparameter from the code itself). Non-trivial: "
    "a finite space with at least 4 configurations, or one with a real-valued hyperparameter."
)
ASSUMPTIONS = ["enumeration is limited to 3000 configurations; larger sizes are compared with exact "
               "products of whole numbers"]


def gen_hp(d):
    return {"h": hp(d, "x", HP_KINDS, small=d.chance(40), mixes=LIST_MIX)}


def check_hp(case):
    h = case["h"]
    x = build_hp(h)
    n = size_of(h)
    ensure(x.size == n, f"size {x.size!r} of {x!r}, expected {n}")
    if h["k"] in FLOATS:
        ensure(math.isinf(x.size), f"size {x.size!r} of a real-valued hyperparameter")
        return [h["k"]]
    if n > 2000:
        return [f"{h['k']} large"]
    # distinct values reachable: decode every encoding of a legal value
    vals = domain(h)
    ensure(len(vals) == n, "model")
    enc = {float(x.to_vector(v)) for v in vals}
    dec = {repr_val(plain(x.to_value(u))) for u in enc}
    ensure(len(enc) == len(dec) == n, f"{len(enc)} encodings and {len(dec)} values, size {n}")
    if n <= 60:
        got = {repr_val(plain(v)) for v in x.sample_value(400, seed=rs(n))}
        ensure(got <= dec, f"sampled {got - dec}")
        if n > 1:
            nb = x.neighbors_values(vals[0], 10 * n + 10, seed=rs(1), std=1.0)
            ensure(len({repr_val(plain(v)) for v in nb} - {repr_val(plain(vals[0]))}) <= n - 1, "neighbours")
    return [h["k"]]


def gen(d):
    if d.chance(2):
        return {"spec": {"hps": [], "conds": [], "forbs": []}}
    cons = d.chance(60)
    kinds = FINITE_KINDS if d.chance(85) else ALL_KINDS
    spec = space(d, 1, 7, kinds=kinds, small=d.chance(80), mixes=ALL_MIX, conds=cons,
                 forbs=(0, 3) if cons else None)
    return {"spec": spec}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    est = cs.estimate_size()
    if not m.hps:
        ensure(est == 0, f"size {est!r} of the empty space")
        return None
    if any(h["k"] in FLOATS for h in spec["hps"]):
        ensure(est == math.inf, f"size {est!r} despite a real-valued hyperparameter")
        return ["real"]
    ensure(est != math.inf, "infinite without a real-valued hyperparameter")
    want = math.prod(size_of(h) for h in spec["hps"])
    if not spec["conds"] and not spec["forbs"]:
        ensure(est == want, f"size {est!r}, expected {want}")
    elif spec["forbs"] or spec["conds"]:
        ensure(est <= want, f"size {est!r} exceeds the product {want}")
    if want > 3000:
        return ["large"]
    n = len({key(a) for a in m.enumerate()})
    ensure(est >= n, f"size {est!r} but there are {n} configurations")
    if not spec["conds"] and not spec["forbs"]:
        ensure(est == n, f"size {est!r} but there are {n} configurations")
    if n <= 60 and all(h["k"] in ("ui", "cat", "ord", "const") for h in spec["hps"]):
        steps = {h["name"]: size_of(h) for h in spec["hps"] if h["k"] == "ui" and not h["log"]}
        if all(h["k"] != "ui" or h["name"] in steps for h in spec["hps"]):
            got = {key(asg_of(c)) for c in generate_grid(cs, steps)}
            ensure(len(got) == n, f"the grid has {len(got)} of {n} configurations")
    return [("constrained" if n < want else "full")] if n >= 4 else None


def gen_large(d):
    return {"sizes": [d.pick([10**6, 10**5, 10**9, 2**31, 7, 999983]) for _ in range(d.int(2, 12))]}


def check_large(case):
    cs = ConfigurationSpace()
    cs.add([build_hp({"k": "ui", "name": f"x{i}", "lower": 1, "upper": s, "log": False, "default": 1})
            for i, s in enumerate(case["sizes"])])
    want = math.prod(case["sizes"])
    est = cs.estimate_size()
    ensure(est == want or abs(est / want - 1) < 1e-12, f"size {est!r}, expected {want}")
    ensure(est != math.inf and est > 0, f"size {est!r}")
    return ["beyond 64 bits" if want >= 2**63 else "large"]


PARTS = [part("hyperparameters", gen_hp, check_hp, 3000), part("spaces", gen, check, 3000),
         part("large", gen_large, check_large, 300)]
