"""C05: neighbours are legal, distinct, never the value itself, and complete."""
from vp.lib import *

RULE = (
    "A case is one hyperparameter, a centre (lattice point, edge or sampled), a number of "
    "neighbours around the size of the domain, a spread and a seed. In part 'few' fewer are asked "
    "for than exist, often enough that each has to come up. Non-trivial: at least one "
    "neighbour exists."
)
ASSUMPTIONS = [
    "at least one neighbour is asked for; spread in (0, 1] or the default",
    "the spread is judged where no draw falls outside the range: neighbours lie within 8 "
    "spreads of the value (false alarm below 1e-11 per run)",
]


def gen(d):
    h = hp(d, "x", HP_KINDS, small=d.chance(40), mixes=ALL_MIX)
    size = size_of(h)
    if size == math.inf or size > 60:
        n = d.pick([1, 2, 3, 5, 10, 25, 60])
    else:
        n = max(1, min(int(size) - 1 + d.int(-3, 3), 60)) if d.chance(60) else d.int(1, 12)
    return {
        "hp": h,
        "at": d.int(0, 4096),
        "n": n,
        "std": d.pick([None, None, 0.2, 0.05, 1.0, 0.001, 0.5]),
        "seed": d.seed(),
    }


def gen_cat(d):
    """Many choices: cached tables, cached ranges and neither."""
    n = d.pick([2, 3, 49, 50, 51, 100, 499, 500, 501, 999, 1000, 1001, 1024])
    n = max(2, n + d.int(-1, 1))
    k = d.pick(["cat", "cat", "ord"])
    return {"k": k, "size": n, "at": d.int(0, 4096), "n": d.pick([1, 2, n - 2, n - 1, n, n + 5]),
            "seed": d.seed()}


def centre(h, at):
    if h["k"] in FLOATS:
        return unit_to_float(h, at / 4096)
    if h["k"] in INTS:
        return h["lower"] + at % size_of(h)
    dom = domain(h)
    return dom[at % len(dom)]


def check(case):
    h = case["hp"]
    x = build_hp(h)
    c = centre(h, case["at"])
    return verify(x, h, c, case["n"], case["std"], case["seed"])


def check_cat(case):
    n = case["size"]
    vals = [f"v{i}" for i in range(n)]
    h = {"k": case["k"], "name": "x"}
    h["choices" if case["k"] == "cat" else "sequence"] = vals
    x = build_hp(h)
    return verify(x, h, vals[case["at"] % n], max(1, case["n"]), None, case["seed"])


def verify(x, h, c, n, std, seed):
    k = h["k"]
    size = size_of(h)
    vec = x.to_vector(c)
    vs = x.neighbors_vectorized(vec, n, std=std, seed=rs(seed)).copy()
    vals = x.neighbors_values(c, n, std=std, seed=rs(seed))
    ensure(isinstance(vs, np.ndarray) and vs.ndim == 1, f"neighbours are {vs!r}")
    ensure(len(vs) <= n, f"asked for {n} neighbours, got {len(vs)}")
    ensure(len(vals) == len(vs), "value and encoding forms differ in number")
    if len(vs):
        ensure(bool(np.all(x.legal_vector(vs))), f"illegal neighbour encodings {vs!r}")
    got = [plain(v) for v in vals]
    for v, e in zip(got, vs):
        ensure(legal(h, v) if k in FLOATS else v in domain_fast(h), f"illegal neighbour {v!r}")
        ensure(same_value(h, plain(x.to_value(float(e))), v), "value and encoding forms differ")
        if k not in FLOATS:
            ensure(v != c, f"{c!r} is its own neighbour")
    ensure(float(vec) == float(x.to_vector(c)), "the centre changed")
    if k in FLOATS:
        ensure(len(vs) == n, f"asked for {n} neighbours, got {len(vs)}")
        ensure(len({float(v) for v in vs}) == n, "neighbours repeat")
        ensure(all(float(v) != float(vec) for v in vs), "the value is its own neighbour")
        ensure(x.get_num_neighbors(c) == math.inf, "number of neighbours")
        return [k]
    ensure(len({repr(v) for v in got}) == len(got), f"repeated neighbours {got!r}")
    if k == "const":
        ensure(len(vs) == 0, "a constant has a neighbour")
        ensure(x.get_num_neighbors(c) == 0, "number of neighbours of a constant")
        return None
    if k == "ord":
        i = domain(h).index(c)
        adj = [domain(h)[j] for j in (i - 1, i + 1) if 0 <= j < size]
        ensure(all(v in adj for v in got), f"neighbours {got!r} of {c!r} are not adjacent")
        avail = len(adj)
    else:
        avail = size - 1
    ensure(len(got) == min(n, avail), f"{len(got)} of {avail} neighbours, asked for {n}")
    ensure(x.get_num_neighbors(c) == avail,
           f"reported {x.get_num_neighbors(c)} neighbours of {c!r}, not {avail}")
    ensure(bool(x.get_num_neighbors() > 0) , "number of neighbours of an unspecified value")
    # the seed decides
    again = x.neighbors_vectorized(vec, n, std=std, seed=rs(seed))
    ensure(np.array_equal(again, vs), "same seed, other neighbours")
    if k in ("cat", "ord"):  # encodings that stand for the value up to rounding
        for off in (-4e-14, 4e-14):
            near = float(np.clip(vec + off, 0, size - 1))
            again = x.neighbors_vectorized(np.float64(near), n, std=std, seed=rs(seed))
            ensure(np.array_equal(again, vs), f"other neighbours of the encoding {near!r}")
    return [k + ("-log" if h.get("log") else "") + ("-all" if n >= avail else "-some")] \
        if avail else None


def domain_fast(h):
    if h["k"] in INTS:
        return range(h["lower"], h["upper"] + 1)
    return domain(h)


def gen_all(d):
    """All neighbours of many values of one integer."""
    k = d.pick(["ui", "ui", "ni", "bi"])
    log = d.chance(30)
    lo = d.int(1, 40) if log else d.pick([0, 1, -7, 13, -200, 10**5])
    h = {"k": k, "name": "x", "log": log, "lower": lo, "upper": lo + d.int(1, 260), "default": lo}
    if k == "ni":
        h["mu"], h["sigma"] = float(lo + 1), float(h["upper"] - lo + 3)
    if k == "bi":
        h["alpha"], h["beta"] = 2.0, 3.0
    return {"hp": h, "at": d.int(0, 4096), "step": d.pick([1, 3, 7]), "more": d.pick([0, 1, 10]),
            "seed": d.seed()}


def check_all(case):
    h = case["hp"]
    x = build_hp(h)
    size = size_of(h)
    for i in range(12):
        c = h["lower"] + (case["at"] + i * case["step"]) % size
        got = sorted(int(v) for v in x.neighbors_values(c, size - 1 + case["more"], seed=rs(case["seed"])))
        want = [v for v in range(h["lower"], h["upper"] + 1) if v != c]
        ensure(got == want, f"all neighbours of {c}: missing {sorted(set(want) - set(got))!r}, "
                            f"surplus {sorted(set(got) - set(want))!r}")
    return [h["k"] + ("-log" if h["log"] else "")]


def gen_spread(d):
    """Well inside the range, so that no draw needs to be repeated."""
    h = hp(d, "x", [("uf", 3), ("nf", 2), ("bf", 2), ("ui", 2), ("ni", 1), ("bi", 1)])
    if h["k"] in INTS:
        h["log"] = False
        h["upper"] = h["lower"] + d.pick([10**5, 10**6, 123456])
        h["default"] = h["lower"]
        if h["k"] == "ni":
            h["mu"], h["sigma"] = float(h["lower"] + 500), float(10**5)
    std = d.pick([0.05, 0.02, 0.01, 0.003, 0.001])
    t = d.int(0, 1024) / 1024
    return {"hp": h, "t": 9 * std + t * (1 - 18 * std), "std": std, "seed": d.seed(),
            "n": d.pick([30, 40, 60]) if h["k"] in FLOATS else d.pick([8, 15])}


def check_spread(case):
    h, std, n, t = case["hp"], case["std"], case["n"], case["t"]
    x = build_hp(h)
    if h["k"] in FLOATS:
        u, slack = float(x.to_vector(x.to_value(t))), 0.0
    else:
        size = size_of(h)
        if std * size < 100 * n:
            raise Skip
        u, slack = float(x.to_vector(h["lower"] + int(t * (size - 1)))), 2.0 / size
    got = np.array(x.neighbors_vectorized(np.float64(u), n, std=std, seed=rs(case["seed"])), dtype=float)
    ensure(len(got) == n, f"{len(got)} neighbours, asked for {n}")
    dist = np.abs(got - u)
    # a normal deviate beyond 8 spreads has probability 1e-15; all of 8 within
    # 0.004 spreads 1e-20; all of 30 on one side 1e-9 (not asked)
    ensure(dist.max() <= 8 * std + slack, f"a neighbour at distance {dist.max()}, spread {std}")
    ensure(dist.max() >= 0.004 * std, f"all neighbours within {dist.max()}, spread {std}")
    return [h["k"] + ("-log" if h["log"] else "")]


def gen_far(d):
    """Illegal centres are refused."""
    return {"hp": hp(d, "x", HP_KINDS), "seed": d.seed()}


def check_far(case):
    h = case["hp"]
    x = build_hp(h)
    bad = {"cat": size_of(h) + 1.0, "ord": -1.0, "const": 3.0}.get(h["k"], 1.5)
    ensure(raises(lambda: x.neighbors_vectorized(bad, 2, seed=rs(1)), ValueError),
           f"neighbours of the illegal encoding {bad}")
    return [h["k"]]


def gen_few(d):
    """Fewer than exist: which ones is left to chance, and none is left out."""
    k = d.weighted([("cat", 4), ("ord", 2), ("num", 3)])
    if k == "num":
        return {"hp": hp(d, "x", [("uf", 2), ("nf", 1), ("bf", 1), ("ui", 2)]),
                "at": d.int(1500, 2500), "n": 1, "seed": d.int(0, 10**6), "shared": d.chance(50)}
    size = d.pick([3, 4, 5, 6, 7, 24, 25, 26, 27, 30])
    return {"hp": {"k": k, "name": "x", "choices" if k == "cat" else "sequence": [f"v{i}" for i in range(size)]},
            "at": d.int(0, 29), "n": 1 if k == "ord" else d.int(1, min(4, size - 2)), "seed": d.int(0, 10**6),
            "shared": d.chance(50)}


def check_few(case):
    h, n = case["hp"], case["n"]
    x = build_hp(h)
    one = rs(case["seed"])
    if h["k"] in NUMS:
        if h["k"] == "ui" and (h["log"] or size_of(h) < 9):
            raise Skip
        c = centre(h, case["at"]) if h["k"] in FLOATS else h["lower"] + size_of(h) // 2
        u = float(x.to_vector(c))
        if not 0.3 < u < 0.7:
            raise Skip
        # a right one stays on one side with a probability below 1e-30
        want, rounds = {"below", "above"}, 150
    else:
        dom = domain(h)
        i = case["at"] % len(dom)
        c, want = dom[i], {v for j, v in enumerate(dom) if j != i and (h["k"] == "cat" or abs(i - j) == 1)}
        rounds = 1200  # of at most 29 choices, each comes up but for a probability below 1e-16
    seen = set()
    for k in range(rounds):
        got = x.neighbors_values(c, n, seed=one if case["shared"] else rs(case["seed"] + k))
        if h["k"] in NUMS:
            got = ["below" if v < c else "above" for v in got]
        else:
            ensure(len(got) == min(n, len(want)), f"{len(got)} neighbours of {c!r}, not {n}")
        seen |= set(got)
        if want <= seen:
            break
    ensure(want <= seen, f"never among the neighbours of {c!r}: {sorted(want - seen)}")
    return [h["k"]]


PARTS = [
    part("any", gen, check, 6000),
    part("sizes", gen_cat, check_cat, 800),
    part("all", gen_all, check_all, 700),
    part("spread", gen_spread, check_spread, 1200),
    part("few", gen_few, check_few, 700),
    part("illegal", gen_far, check_far, 300),
]
