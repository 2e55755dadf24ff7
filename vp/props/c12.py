"""C12: the one-exchange neighbourhood is valid, local and complete."""
import collections

from vp.lib import *
from ConfigSpace.util import get_one_exchange_neighbourhood

RULE = (
    "A case is a space with conditions and forbidden clauses, a valid configuration, a seed, a "
    "number of neighbours and a spread. Each neighbour must be the reference model's result of "
    "assigning one value; for finite hyperparameters all admissible assignments are listed by "
    "the model. Non-trivial: at least three neighbours and a condition or forbidden clause "
    "that matters (a switched hyperparameter or an excluded change)."
)
ASSUMPTIONS = [
    "completeness is asked of categoricals, of ordinals (adjacent values) and of integers with "
    "more neighbours requested than exist",
    "real-valued changes whose verdict hinges on rounding are not judged",
]


def gen(d):
    spec = space(d, 1, 7, small=d.chance(70), mixes=ALL_MIX, forbs=(0, 4), pcond=60)
    return {"spec": spec, "asg": valid_assignment(d, spec), "seed": d.seed(),
            "n": d.pick([4, 1, 2, 6, 10, 50]), "std": d.pick([0.2, 0.05, 0.5])}


def gen_finite(d):
    spec = space(d, 2, 7, kinds=FINITE_KINDS, small=True, mixes=ALL_MIX, forbs=(0, 5), pcond=60)
    return {"spec": spec, "asg": valid_assignment(d, spec), "seed": d.seed(),
            "n": d.pick([10, 5, 30]), "std": d.pick([0.2, 0.5])}


def gen_many(d):
    """One hyperparameter of many values, most of them excluded next to the origin."""
    spec = space(d, 1, 4, kinds=FINITE_KINDS, small=True, mixes=ALL_MIX, forbs=(0, 2), pcond=40)
    k = d.int(8, 30)
    kind = d.weighted([("cat", 3), ("ui", 1)])
    if kind == "cat":
        h = {"k": "cat", "name": "many", "choices": [f"v{i}" for i in range(k)], "default": "v0"}
        vals = h["choices"][1:]
    else:
        h = {"k": "ui", "name": "many", "lower": 0, "upper": k - 1, "log": False, "default": 0}
        vals = list(range(1, k))
    keep = d.subset(vals, 0, 3)
    part_ = {"op": "in", "hp": "many", "values": [v for v in vals if v not in keep]}
    if d.chance(50):
        g = d.pick(spec["hps"])
        part_ = {"op": "and", "parts": [part_, forb_literal(d, g)]}
    spec["hps"].insert(d.int(0, len(spec["hps"])), h)
    spec["forbs"].append(part_)
    return {"spec": spec, "asg": valid_assignment(d, spec), "seed": d.seed(),
            "n": d.pick([40, 4]), "std": d.pick([0.2, 0.5])}


def gen_web(d):
    spec = web(d)
    return {"spec": spec, "asg": valid_assignment(d, spec), "seed": d.seed(), "n": 10, "std": 0.2}


def check(case):
    spec, n = case["spec"], case["n"]
    if case["asg"] is None:
        raise Skip
    m = Model(spec)
    cs = build_space(spec)
    cfg = make(cs, case["asg"])
    base = asg_of(cfg)
    vec = cfg.get_array().copy()

    def run(seed):
        return list(get_one_exchange_neighbourhood(cfg, seed=seed, num_neighbors=n, stdev=case["std"]))

    usual = [key(asg_of(c)) for c in get_one_exchange_neighbourhood(cfg, case["seed"])]
    told = get_one_exchange_neighbourhood(cfg, seed=case["seed"], num_neighbors=4, stdev=0.2)
    ensure(usual == [key(asg_of(c)) for c in told], "omitted options differ from the documented ones")
    out = run(case["seed"])
    again = run(case["seed"])
    other = run(rs(case["seed"]))
    for o, how in ((again, "again"), (other, "with a generator seeded alike")):
        ensure([key(asg_of(c)) for c in o] == [key(asg_of(c)) for c in out],
               f"different neighbours when asked {how}")
    ensure(asg_of(cfg) == base and np.array_equal(cfg.get_array(), vec, equal_nan=True),
           "the origin was modified")

    counts = {x: collections.Counter() for x in m.hps}
    matters = False
    for c in out:
        a = asg_of(c)
        p = m.problems(a)
        ensure(not p, f"{base!r}: neighbour {a!r}: {p}")
        c.check_valid_configuration()
        diff = [x for x in a if x in base and not same_value(m.hps[x], a[x], base[x])]
        ensure(len(diff) == 1, f"{base!r}: neighbour {a!r} differs in {diff}")
        x = diff[0]
        want, probs = m.set_value(base, x, a[x])
        if probs is None:
            continue
        ensure(not probs, f"{base!r}: {x}={a[x]!r} gives {probs}")
        ensure(same_asg(m, a, want), f"{base!r}: {x}={a[x]!r} gives {a!r}, expected {want!r}")
        matters |= set(a) != set(base)
        counts[x][repr_val(a[x])] += 1
    for x in base:
        h = m.hps[x]
        if not spec["forbs"] and h["k"] in NUMS:
            want = n if h["k"] in FLOATS else min(n, h["upper"] - h["lower"])
            got = sum(counts[x].values())
            ensure(got == want, f"{base!r}: {got} changes of {x}, not {want}")
        if h["k"] in FLOATS:
            ensure(sum(counts[x].values()) <= n, f"more than {n} changes of {x}")
            continue
        vals = [v for v in domain(h) if not same_value(h, v, base[x])]
        if h["k"] == "ord":
            i = h["sequence"].index(base[x])
            vals = [v for v in vals if abs(h["sequence"].index(v) - i) == 1]
        elif h["k"] in INTS and n <= len(vals):
            ensure(sum(counts[x].values()) <= n, f"more than {n} changes of {x}")
            continue
        for v in vals:
            want, probs = m.set_value(base, x, v)
            if probs is None:
                continue
            got = counts[x][repr_val(v)]
            matters |= bool(probs)
            ensure(got == (0 if probs else 1),
                   f"{base!r}: {x}={v!r} ({probs or 'admissible'}) occurs {got} times")
        ensure(len(counts[x]) <= len(vals), f"{x} takes foreign values {counts[x]}")
    if len(out) < 3 or not matters:
        return None
    return kinds_label(spec)


PARTS = [part("any", gen, check, 1200), part("finite", gen_finite, check, 2500),
         part("many", gen_many, check, 700), part("web", gen_web, check, 1500)]
