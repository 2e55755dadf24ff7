"""C13: a random neighbour is valid and changes exactly one hyperparameter."""
from vp.lib import *
from ConfigSpace.util import get_random_neighbor

RULE = (
    "A case is a space with conditions and forbidden clauses, a valid configuration that has a "
    "hyperparameter free to change, and several seeds. Part 'none' has configurations all of "
    "whose changes are inadmissible (decided by the reference model). Part 'reach' has small "
    "spaces without constraints, all single changes of which have to come up among 600 seeds. "
    "Non-trivial: the space has a condition or forbidden clause, or two changes exist."
)
ASSUMPTIONS = [
    "success is asked for when some active hyperparameter has several values, no children and "
    "no forbidden clause; the search is randomised otherwise",
]


def neighbours(m, a):
    """Do admissible single changes exist?  None: cannot tell."""
    for n in a:
        h = m.hps[n]
        if h["k"] in FLOATS:
            if not m.children[n] and not any(n in forb_names(f) for f in m.forbs):
                return True
            return None
        if size_of(h) > 60:
            return None
        i = domain(h).index(a[n])
        for j, v in enumerate(domain(h)):
            if j == i or (h["k"] == "ord" and abs(i - j) != 1):
                continue
            b, p = m.set_value(a, n, v)
            if p is None:
                return None
            if not p and set(b) == set(a):
                return True
    return False


def gen(d):
    spec = space(d, 2, 7, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 3), pcond=60)
    return {"spec": spec, "asg": valid_assignment(d, spec), "seeds": [d.seed() for _ in range(4)]}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    base = case["asg"]
    if base is None:
        raise Skip
    inforb = {n for f in m.forbs for n in forb_names(f)}
    if not any(size_of(m.hps[n]) > 1 and not m.children[n] and n not in inforb for n in base):
        raise Skip
    cs = build_space(spec)
    cfg = make(cs, base)
    base = asg_of(cfg)
    vec = cfg.get_array().copy()
    for seed in case["seeds"]:
        c = get_random_neighbor(cfg, seed)
        a = asg_of(c)
        p = m.problems(a)
        ensure(not p, f"{base!r}: neighbour {a!r}: {p}")
        c.check_valid_configuration()
        ensure(set(a) == set(base), f"{base!r}: neighbour {a!r} has other active ones")
        diff = [x for x in a if a[x] != base[x]]
        ensure(len(diff) == 1, f"{base!r}: neighbour {a!r} differs in {diff}")
        h = m.hps[diff[0]]
        if h["k"] == "ord":
            s = h["sequence"]
            ensure(abs(s.index(a[diff[0]]) - s.index(base[diff[0]])) == 1, f"{diff[0]}: not adjacent")
        ensure(asg_of(get_random_neighbor(cfg, seed)) == a, "another neighbour for the same seed")
    ensure(asg_of(cfg) == base and np.array_equal(cfg.get_array(), vec, equal_nan=True),
           "the origin was modified")
    return kinds_label(spec) or None


def gen_none(d):
    """Two or three switches, every change of which is forbidden or switches others."""
    n = d.int(1, 3)
    nm = names(d, n)
    hps, conds, forbs = [], [], []
    for i in range(n):
        k = d.weighted([("cat", 3), ("ord", 2), ("ui", 2), ("const", 2)])
        h = {"k": k, "name": nm[i]}
        if k == "const":
            h["value"] = 1
        elif k == "ui":
            h.update(log=False, lower=0, upper=d.int(1, 2), default=0)
        else:
            h["choices" if k == "cat" else "sequence"] = ["x", "y", "z"][: d.int(1, 3)]
        hps.append(h)
    hps.append({"k": "const", "name": "w_", "value": 0})
    for i, h in enumerate(hps[:-1]):
        rest = domain(h)[1:]
        if not rest:
            continue
        if d.chance(50) or conds:
            forbs.append({"op": "in", "hp": h["name"], "values": rest})
        else:
            conds.append({"op": "eq", "child": "w_", "parent": h["name"], "value": domain(h)[0]})
    return {"spec": {"hps": d.shuffle(hps), "conds": conds, "forbs": forbs, "seed": 0},
            "seed": d.seed()}


def check_none(case):
    spec = case["spec"]
    m = Model(spec)
    a = m.default_config()
    ensure(neighbours(m, a) is False, "harness: a neighbour exists")
    cfg = build_space(spec).get_default_configuration()
    ensure(asg_of(cfg) == a, "default")
    ensure(raises(lambda: get_random_neighbor(cfg, case["seed"]), ValueError),
           f"{a!r} has no neighbour, but one is returned")
    ensure(asg_of(cfg) == a, "the origin was modified")
    return kinds_label(spec) or None


def gen_reach(d):
    hps = []
    for n in names(d, d.int(1, 4)):
        h = {"k": d.weighted([("cat", 3), ("ord", 3), ("ui", 2), ("const", 1)]), "name": n}
        size = d.int(2, 5)
        if h["k"] == "const":
            h["value"] = 1
        elif h["k"] == "ui":
            lo = d.int(-3, 9)
            h.update(log=False, lower=lo, upper=lo + size - 1, default=lo)
        else:
            h["choices" if h["k"] == "cat" else "sequence"] = list(range(size))
        hps.append(h)
    return {"spec": {"hps": hps, "conds": [], "forbs": [], "seed": 0},
            "at": [d.int(0, 4) for _ in hps], "first": d.int(0, 10**6)}


def check_reach(case):
    """Among 600 seeds, every change of a small space comes up (each has a chance of at least one
    in 16, so that a correct search misses one with a probability below 1e-15)."""
    hps = case["spec"]["hps"]
    base = {h["name"]: domain(h)[i % size_of(h)] for h, i in zip(hps, case["at"])}
    want = set()
    for h in hps:
        dom = domain(h)
        i = dom.index(base[h["name"]])
        want |= {(h["name"], v) for j, v in enumerate(dom)
                 if j != i and (h["k"] == "cat" or abs(i - j) == 1)}
    if not want:
        raise Skip
    cfg = make(build_space(case["spec"]), base)
    seen = set()
    for k in range(600):
        a = asg_of(get_random_neighbor(cfg, case["first"] + k))
        diff = [(n, v) for n, v in a.items() if v != base[n]]
        ensure(len(diff) == 1, f"{base!r}: neighbour {a!r}")
        seen.add(diff[0])
        if want <= seen:
            break
    ensure(want <= seen, f"{base!r}: never a neighbour in 600 draws: {sorted(want - seen)}")
    return [h["k"] for h in hps] if len(want) > 1 else None


PARTS = [part("some", gen, check, 3000), part("reach", gen_reach, check_reach, 600), part("none", gen_none, check_none, 70, 400)]
