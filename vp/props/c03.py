"""C03: sampling a hyperparameter yields legal values distributed as declared."""
from scipy import stats

from vp.lib import *

RULE = (
    "A case is one hyperparameter, a seed and a number of draws (1..60 for legality, 4000 for "
    "distribution). Draws are checked for membership, count, shape, agreement of the sampling "
    "entry points and, in part 'dist', against the declared prior by a chi-square or "
    "Kolmogorov-Smirnov test with alarm level 1e-11; in part 'batches' 1500 requests of 1..5 draws "
    "each, position by position and for the number of equal pairs. Non-trivial: domain with more than one "
    "value."
)
ASSUMPTIONS = [
    "a statistical alarm needs p < 1e-11, so a run of 1e5 cases raises a false one with "
    "probability below 1e-5; smaller deviations of a prior go unnoticed",
    "whole-number normal/beta priors are taken to be the continuous prior on the unit scale "
    "cut into equally wide value bins; log-scaled normal priors are compared to the reported "
    "density instead of a closed form, and for whole numbers only checked for legality",
]
P = 1e-11


def gen(d):
    return {"hp": hp(d, "x", HP_KINDS, mixes=ALL_MIX), "seed": d.seed(), "n": d.int(1, 60)}


def gen_dist(d):
    h = hp(d, "x", HP_KINDS, mixes=PLAIN_MIX, min_choices=2)
    return {"hp": h, "seed": d.seed()}


def check(case):
    h, n, seed = case["hp"], case["n"], case["seed"]
    x = build_hp(h)
    k = h["k"]
    vec = x.sample_vector(n, seed=rs(seed))
    val = x.sample_value(n, seed=rs(seed))
    ensure(isinstance(vec, np.ndarray) and vec.shape == (n,), f"shape {vec!r}")
    ensure(len(val) == n, f"asked for {n} values, got {len(val)}")
    ensure(bool(np.all(x.legal_vector(vec))), f"illegal encoding among {vec!r}")
    ensure(bool(np.all(x.legal_value(val))), f"illegal value among {val!r}")
    again = x.to_value(vec)
    rvs = x.rvs(n, random_state=rs(seed))
    for a, b, c in zip(val, again, rvs):
        a, b, c = plain(a), plain(b), plain(c)
        ensure(legal(h, a), f"drew {a!r}, not in the domain")
        ensure(same_value(h, a, b), f"values {a!r} and encodings {b!r} differ")
        ensure(same_value(h, a, c), f"rvs gives {c!r} instead of {a!r}")
        if k == "cat" and h.get("weights"):
            i = h["choices"].index(a)
            ensure(h["weights"][i] > 0, f"drew {a!r} which has weight zero")
    # newer generators: reproducible, and they move on
    g1, g2 = np.random.default_rng(seed), np.random.default_rng(seed)
    a = [list(x.rvs(n, random_state=g1)), x.rvs(random_state=g1), list(x.rvs(n, random_state=g1))]
    b = [list(x.rvs(n, random_state=g2)), x.rvs(random_state=g2), list(x.rvs(n, random_state=g2))]
    for p, q in zip([*a[0], a[1], *a[2]], [*b[0], b[1], *b[2]]):
        ensure(legal(h, plain(p)), f"rvs gives {p!r}, not in the domain")
        ensure(same_value(h, plain(p), plain(q)), f"the same generator gives {p!r} and {q!r}")
    ensure(len(a[0]) == len(a[2]) == n, f"asked for {n} values, got {len(a[0])}")
    if k in FLOATS and n > 2:
        ensure([plain(v) for v in a[0]] != [plain(v) for v in a[2]], "a generator does not move on")
    one = x.sample_value(seed=rs(seed))
    ensure(np.ndim(one) == 0, f"single draw {one!r}")
    ensure(legal(h, plain(one)), f"single draw {one!r} not in the domain")
    if k in INTS:
        ensure(type(one) is int, f"single draw is a {type(one)}")
    if k in FLOATS:
        ensure(type(one) is float, f"single draw is a {type(one)}")
    v1 = x.sample_vector(seed=rs(seed))
    ensure(np.ndim(v1) == 0 and bool(x.legal_vector(float(v1))), f"single encoding {v1!r}")
    ensure(same_value(h, x.to_value(float(v1)), one), "single value and encoding differ")
    if n > 1:
        # a generator advances: not the same draw over and over for the same state
        r = rs(seed)
        a = [plain(x.sample_value(seed=r)) for _ in range(3)]
        ensure(all(legal(h, v) for v in a), f"{a!r}")
        if k in FLOATS:
            ensure(len(set(a)) > 1, f"successive draws are all {a[0]!r}")
    return [k + ("-log" if h.get("log") else "")] if size_of(h) > 1 else None


def unit(h, v):
    lo, up = float(h["lower"]), float(h["upper"])
    if h["log"]:
        return (math.log(v) - math.log(lo)) / (math.log(up) - math.log(lo))
    return (v - lo) / (up - lo)


def cdf_of(h):
    k = h["k"]
    if k in ("uf", "ui"):
        return lambda t: np.clip(t, 0, 1)
    if k in ("bf", "bi"):
        return stats.beta(h["alpha"], h["beta"]).cdf
    if h["log"]:
        return None
    rng = float(h["upper"]) - float(h["lower"])
    mu, sg = unit(h, h["mu"]), h["sigma"] / rng
    return stats.truncnorm((0 - mu) / sg, (1 - mu) / sg, loc=mu, scale=sg).cdf


def chi2(counts, probs, what):
    n = sum(counts)
    obs, exp = [], []
    co = ce = 0.0
    for o, p in zip(counts, probs):
        e = n * p
        ensure(not (e < 1e-9 and o > 0), f"drew a value of probability zero: {what}")
        co, ce = co + o, ce + e
        if ce >= 25:
            obs.append(co)
            exp.append(ce)
            co = ce = 0.0
    if ce > 0 and obs:
        obs[-1] += co
        exp[-1] += ce
    if len(obs) < 2:
        return False
    f = sum(obs) / sum(exp)
    stat = sum((o - e * f) ** 2 / (e * f) for o, e in zip(obs, exp))
    p = stats.chi2.sf(stat, len(obs) - 1)
    ensure(p > P, f"frequencies do not follow the prior (p={p:.3g}): {what}")
    return True


def check_dist(case):
    h = case["hp"]
    x = build_hp(h)
    k = h["k"]
    n = 4000
    val = [plain(v) for v in x.sample_value(n, seed=rs(case["seed"]))]
    if k == "const":
        return None
    if k in ("cat", "ord"):
        dom = domain(h)
        w = h.get("weights") or [1.0] * len(dom)
        pr = [a / sum(w) for a in w]
        counts = [0] * len(dom)
        for v in val:
            counts[dom.index(v)] += 1
        for c, p in zip(counts, pr):
            ensure(p == 0 or c > 0 or n * p < 40, f"a value of probability {p} never occurs")
        ok = chi2(counts, pr, f"{counts} vs {pr}")
        return [k] if ok else None
    cdf = cdf_of(h)
    if k in FLOATS:
        t = np.array([unit(h, v) for v in val])
        labels = []
        if cdf is not None:
            p = stats.kstest(t, cdf).pvalue
            ensure(p > P, f"draws do not follow the declared prior (p={p:.3g})")
            labels.append(k + ("-log" if h["log"] else ""))
        # and the reported density
        g = np.linspace(0, 1, 4001)
        dens = x.pdf_vector(g)
        if np.all(np.isfinite(dens)) and dens.sum() > 0 and dens.max() < 200 * dens.mean():
            c = np.concatenate([[0], np.cumsum((dens[1:] + dens[:-1]) / 2)])
            c = c / c[-1]
            p = stats.kstest(t, lambda z: np.interp(z, g, c)).pvalue
            ensure(p > P, f"draws do not follow the reported density (p={p:.3g})")
            labels.append(k + "-density" + ("-log" if h["log"] else ""))
        return labels or None
    if cdf is None:
        return None
    lo, up = h["lower"], h["upper"]
    size = up - lo + 1
    edges = [lo + (up - lo) * i / size for i in range(size + 1)] if size <= 3000 else None
    if edges is None:
        return None
    cum = cdf(np.array([unit(h, e) for e in edges]))
    pr = np.diff(cum)
    counts = np.bincount(np.array(val) - lo, minlength=size)
    ok = chi2([int(c) for c in counts], [float(p) for p in pr], "whole numbers")
    # the end points are reachable
    for i in (0, size - 1):
        ensure(counts[i] > 0 or n * pr[i] < 40, f"{lo + i} never occurs")
    return [k + ("-log" if h["log"] else "")] if ok else None


def gen_batches(d):
    kinds = [("cat", 5), ("ord", 2), ("ui", 3), ("ni", 2), ("bi", 2)]
    h = hp(d, "x", kinds, small=True, mixes=PLAIN_MIX, min_choices=2, logs=False)
    return {"hp": h, "seed": d.seed(), "batch": d.pick([1, 2, 3, 5])}


def check_batches(case):
    """Draws taken a few at a time follow the same law and are independent."""
    h, b = case["hp"], case["batch"]
    x = build_hp(h)
    dom = domain(h)
    if len(dom) > 40:
        raise Skip
    if h["k"] in INTS:
        lo, up, size = h["lower"], h["upper"], len(dom)
        cum = cdf_of(h)(np.array([unit(h, lo + (up - lo) * i / size) for i in range(size + 1)]))
        pr = np.diff(cum)
        pr = pr / pr.sum()
    else:
        w = np.array(h.get("weights") or [1.0] * len(dom))
        pr = w / w.sum()
    r = rs(case["seed"])
    pos = {repr(v): i for i, v in enumerate(dom)}
    rows = []
    for _ in range(1500):
        out = x.sample_value(b, seed=r) if b > 1 else [x.sample_value(seed=r)]
        rows.append([pos[repr(plain(v))] for v in out])
    rows = np.array(rows)
    labels = []
    for j in range(b):
        counts = np.bincount(rows[:, j], minlength=len(dom))
        if chi2([int(c) for c in counts], [float(p) for p in pr], f"draw {j + 1} of {b}: {counts} vs {pr}"):
            labels.append(f"{h['k']}-{b}")
    # pairs drawn together, or one after the other
    a, c = (rows[:, 0], rows[:, 1]) if b > 1 else (rows[:-1:2, 0], rows[1::2, 0])
    same = int(np.sum(a == c))
    q = float(np.sum(pr**2))
    p = stats.binomtest(same, len(a), q).pvalue if 0 < q < 1 - 1e-9 else 1.0
    ensure(p > P, f"{same} of {len(a)} pairs are equal, expected {q * len(a):.0f} (p={p:.3g})")
    return labels[:1] or None


PARTS = [part("legal", gen, check, 4000), part("dist", gen_dist, check_dist, 1500),
         part("batches", gen_batches, check_batches, 700)]
