"""C33: building blocks for user-defined hyperparameters keep their bounds and counts."""
import pickle
from dataclasses import dataclass
from typing import Any, ClassVar

import scipy.stats as st

from vp.lib import *
from ConfigSpace import ConfigurationSpace, EqualsCondition, ForbiddenEqualsClause
from ConfigSpace.hyperparameters import Hyperparameter
from ConfigSpace.hyperparameters import distributions as ds
from ConfigSpace.hyperparameters.hp_components import TransformerSeq, UnitScaler, ordinal_neighborhood
from ConfigSpace.util import get_one_exchange_neighbourhood

RULE = (
    "Part 'distributions': a case is one published distribution with arbitrary parameters and "
    "vector bounds, with points and requests for samples and neighbours. Part 'custom': a case is "
    "a user-defined hyperparameter assembled from a distribution, a transformer (published or "
    "written by the user) and a neighbourhood, used on its own and in a space. Part 'log levels': "
    "evenly spaced values on a log scale, their samples and neighbours. Levels and "
    "densities are computed here. Non-trivial: at least three levels or a real range."
)
ASSUMPTIONS = [
    "levels of real vector spaces are compared with an accuracy of 1e-9 of the range",
    "the normalisation of discretised priors is the library's choice (ratios are compared)",
]


def gen_bounds(d):
    return d.pick([[0.0, 1.0], [0.0, 1.0], [-1.0, 1.0], [10.0, 20.0], [-7.5, -2.25], [0.0, 1e-3],
                   [0.1, 0.7], [-1e6, 1e6], [0.0, 49.0], [3.0, 4.0]])


def rv_of(c):
    lo, up = c["bounds"]
    w = up - lo
    if c["rv"] == "uniform":
        return st.uniform(lo, w)
    if c["rv"] == "beta":
        return st.beta(c["a"], c["b"], loc=lo, scale=w)
    mu, s = lo + c["mu"] * w, c["sd"] * w
    return st.truncnorm((lo - mu) / s, (up - mu) / s, loc=mu, scale=s)


def gen_rv(d):
    return {"bounds": gen_bounds(d), "rv": d.pick(["uniform", "beta", "normal"]),
            "a": d.pick([1, 1.5, 3, 20]), "b": d.pick([1, 2, 2.5, 9]),
            "mu": d.pick([0.0, 0.1, 0.5, 0.9, 1.0]), "sd": d.pick([0.01, 0.1, 0.5, 3.0])}


def gen_requests(d, levels):
    return {"seed": d.seed(), "n": d.int(1, 12), "at": d.int(0, 10**6),
            "ask": d.pick([1, 1, 2, 3, 4, levels // 2, levels - 2, levels - 1, levels, levels + 5]),
            "std": d.pick([None, None, 0.2, 0.01, 0.05, 0.5, 1.0]),
            "out": [d.pick([-0.5, -1e-3, 1.001, 2.0, float("nan"), -1e9]) for _ in range(3)]}


def gen_dist(d):
    kind = d.pick(["discretized", "discretized", "quantized", "normalized", "integers", "integers",
                   "integers", "weighted", "discrete", "continuous", "unit", "constant"])
    size = d.pick([2, 3, 4, 5, 7, 10, 25, 50, 99, 150, d.int(2, 200)])
    if kind in ("weighted", "integers") and d.chance(10):
        size = 1
    c = {"kind": kind, "size": size, **gen_rv(d)}
    c.update(gen_requests(d, size))
    c["ask"] = max(c["ask"], 1)
    c["w"] = [d.pick([0.0, 1.0, 2.0, 0.25, 5.0]) for _ in range(size - 1)] + [1.0]
    c["retries"] = d.pick([None, None, None, 1, 3, 20])
    return c


def dist_of(c):
    """The distribution with its levels (None: every real in its bounds)."""
    lo, up = c["bounds"]
    k, size = c["kind"], c["size"]
    if k in ("discretized", "quantized"):
        levels = [lo + i * (up - lo) / (size - 1) for i in range(size)]
        if k == "quantized":
            return None, levels
        return ds.DiscretizedContinuousScipyDistribution(
            rv=rv_of(c), steps=size, lower_vectorized=np.float64(lo), upper_vectorized=np.float64(up)), levels
    if k == "normalized":
        return ds.UniformIntegerNormalizedDistribution(size=size), [i / (size - 1) for i in range(size)]
    if k == "integers":
        return ds.UniformIntegerDistribution(size=size), [float(i) for i in range(size)]
    if k == "weighted":
        p = np.array(c["w"]) / sum(c["w"])
        return ds.WeightedIntegerDiscreteDistribution(size=size, probabilities=p), [float(i) for i in range(size)]
    if k == "discrete":
        rv = st.randint(3, 3 + size)
        return ds.ScipyDiscreteDistribution(
            rv=rv, _max_density=1 / size, lower_vectorized=np.float64(3),
            upper_vectorized=np.float64(2 + size)), [float(3 + i) for i in range(size)]
    if k == "continuous":
        rv = rv_of(c)
        return ds.ScipyContinuousDistribution(
            rv=rv, lower_vectorized=np.float64(lo), upper_vectorized=np.float64(up),
            _max_density=float(rv.pdf(np.linspace(lo, up, 2001)).max())), None
    if k == "unit":
        return ds.UnitUniformContinuousDistribution(pdf_max_density=0.25), None
    return ds.ConstantVectorDistribution(np.float64(c["at"])), [float(c["at"])]


def bounds_of(c, levels):
    if levels is not None:
        return levels[0], levels[-1]
    return (0.0, 1.0) if c["kind"] == "unit" else tuple(c["bounds"])


def level_index(levels, x, tol):
    i = min(range(len(levels)), key=lambda j: abs(levels[j] - x))
    return i if abs(levels[i] - x) <= tol else None


def check_neighbors(got, levels, here, ask, tol, exact=False):
    ids = [level_index(levels, float(x), tol) for x in got]
    ensure(None not in ids, f"neighbours {got!r} that are not levels")
    ensure(here not in ids, f"{levels[here]!r} is among its own neighbours {got!r}")
    ensure(len(set(ids)) == len(ids), f"neighbours {got!r} repeat")
    ensure(len(ids) == min(ask, len(levels) - 1),
           f"{len(ids)} neighbours, asked for {ask} of {len(levels) - 1}")
    if exact:
        ensure(all(float(x) == levels[i] for x, i in zip(got, ids)), f"neighbours {got!r} are not whole")


def check_dist(c):
    k = c["kind"]
    dist, levels = dist_of(c)
    lo, up = bounds_of(c, levels)
    tol = 1e-9 * (up - lo)
    whole = k in ("integers", "weighted", "discrete", "constant")
    if dist is not None:
        ensure(float(dist.lower_vectorized) == lo and abs(float(dist.upper_vectorized) - up) <= tol, "bounds")
        got = dist.sample_vector(c["n"], seed=rs(c["seed"]))
        ensure(isinstance(got, np.ndarray) and got.shape == (c["n"],), f"samples {got!r}")
        ensure(np.array_equal(got, dist.sample_vector(c["n"], seed=rs(c["seed"]))), "samples of equal seeds")
        ensure(len(dist.sample_vector(c["n"])) == c["n"], "samples without a seed")
        many = dist.sample_vector(40, seed=rs(c["seed"] ^ 1))
        for x in [*got, *many]:
            ensure(lo <= x <= up, f"sample {x!r} outside of [{lo}, {up}]")
            if levels is not None:
                i = level_index(levels, float(x), 0 if whole else tol)
                ensure(i is not None, f"sample {x!r} is not a level")
                if k == "weighted":
                    ensure(c["w"][i] > 0, f"sample {x!r} has no weight")
        # densities
        mx = dist.max_density()
        ensure(mx > 0 or k == "discretized", f"greatest density {mx!r}")
        out = np.array([lo + t * (up - lo) if up > lo else lo + t + 0.25 for t in c["out"]])
        ensure(np.all(dist.pdf_vector(out) == 0), f"density {dist.pdf_vector(out)!r} outside, at {out!r}")
        pts = np.array(levels if levels is not None else np.linspace(lo, up, 7))
        pdf = dist.pdf_vector(pts)
        ensure(pdf.shape == pts.shape and np.all(pdf >= 0), f"densities {pdf!r}")
        if k in ("discretized", "continuous"):
            ref = rv_of(c).pdf(pts)
            i = int(ref.argmax())
            if np.all(np.isfinite(ref)) and ref[i] > 0 and (mx > 0 or k == "continuous"):
                ensure(np.allclose(pdf / pdf[i], ref / ref[i], rtol=1e-9, atol=1e-12),
                       f"densities {pdf!r} not in proportion to {ref!r}")
        else:
            want = {"weighted": lambda: np.array(c["w"]) / sum(c["w"]), "unit": lambda: np.full(7, 0.25)}.get(
                k, lambda: np.full(len(pts), 1 / len(pts)))()
            ensure(np.allclose(pdf, want, rtol=1e-12, atol=0), f"densities {pdf!r}, expected {want!r}")
            ensure(np.all(pdf <= mx * (1 + 1e-12)), "greater than the greatest density")
            if levels is not None and k != "constant":
                mid = (pts[:-1] + pts[1:]) / 2
                ensure(np.all(dist.pdf_vector(mid) == 0), f"density {dist.pdf_vector(mid)!r} between levels")
        other, _ = dist_of(c)
        if k != "weighted":  # compared by arrays
            ensure(dist == other, "built alike but not equal")
        if k in ("discretized", "continuous"):
            wide, _ = dist_of(dict(c, bounds=[lo, up + (up - lo)]))
            ensure(dist != wide and wide != dist, "equal to one with other bounds")
        if k in ("discretized", "discrete", "normalized", "integers"):
            more, _ = dist_of(dict(c, size=c["size"] + 1))
            ensure(dist != more and more != dist, "equal to one with more levels")
        if k == "discrete":
            low = ds.ScipyDiscreteDistribution(
                rv=dist.rv, _max_density=dist._max_density, lower_vectorized=np.float64(2),
                upper_vectorized=dist.upper_vectorized)
            ensure(dist != low and low != dist, "equal to one with another lower bound")
        new = pickle.loads(pickle.dumps(dist))
        ensure(np.array_equal(new.sample_vector(c["n"], seed=rs(c["seed"])), got), "samples after pickling")
        ensure(np.array_equal(new.pdf_vector(pts), pdf), "densities after pickling")
    # neighbours
    kw = {"std": c["std"]}
    if c["retries"] is not None:
        kw["n_retries"] = c["retries"]
    ask = c["ask"]
    if k == "quantized":
        fn = lambda v, n, **q: ds.quantized_neighborhood(  # noqa: E731
            v, n, lower=np.float64(lo), upper=np.float64(up), bins=len(levels), **q)
    else:
        fn = getattr(dist, "neighborhood", None)
    if fn is not None:
        if levels is None:
            x = np.float64(lo + (c["at"] % 101) / 100 * (up - lo))
            kw.pop("n_retries", None)
            ask = min(ask, 8)
            got = fn(x, ask, seed=rs(c["seed"]), **kw)
            ensure(len(got) == ask, f"{len(got)} neighbours, asked for {ask}")
            ensure(all(lo <= v <= up for v in got), f"neighbours {got!r} outside of [{lo}, {up}]")
            ensure(len(set(got.tolist())) == ask, f"neighbours {got!r} repeat")
        else:
            i = c["at"] % len(levels)
            x = np.float64(levels[i])
            got = fn(x, ask, seed=rs(c["seed"]), **kw)
            check_neighbors(got, levels, i, ask, tol, whole)
        ensure(np.array_equal(got, fn(x, ask, seed=rs(c["seed"]), **kw)), "neighbours of equal seeds")
    if levels is not None and len(levels) < 3:
        return None
    return [k, c["rv"]] if k in ("discretized", "continuous") else [k]


# ------------------------------------------------------------------ user-defined hyperparameters
class Powers:
    """A transformer a user could write: 0, 1, .. size-1 to base ** i."""

    def __init__(self, base, size):
        self.base, self.size = base, size
        self.lower_vectorized, self.upper_vectorized = np.float64(0), np.float64(size - 1)

    def __eq__(self, other):
        return isinstance(other, Powers) and (self.base, self.size) == (other.base, other.size)

    def to_value(self, vector):
        return np.array([self.base ** int(round(float(v))) for v in vector], dtype=np.int64)

    def to_vector(self, value):
        return np.array([self._index(v) for v in value], dtype=np.float64)

    def _index(self, v):
        for i in range(self.size):
            if self.base**i == v:
                return i
        return np.nan

    def legal_value(self, value):
        return np.array([self.legal_value_single(v) for v in value], dtype=bool)

    def legal_vector(self, vector):
        return np.array([self.legal_vector_single(v) for v in vector], dtype=bool)

    def legal_value_single(self, value):
        return isinstance(value, (int, float, np.number)) and not np.isnan(self._index(value))

    def legal_vector_single(self, vector):
        return bool(0 <= vector < self.size and vector == round(float(vector)))


@dataclass(init=False)
class Custom(Hyperparameter):
    """Declared like in the documentation, from a plain description."""

    ORDERABLE: ClassVar[bool] = True

    desc: Any
    name: str
    default_value: Any
    meta: Any
    size: Any

    def __init__(self, name, desc, default_value=MISSING, meta=None):
        self.desc = desc
        vals, dist, tr, nb, cast = assemble(desc)
        size = len(vals) if vals is not None else np.inf
        if default_value is MISSING:
            default_value = vals[desc["def"] % len(vals)] if vals is not None else desc["lower"]
        super().__init__(
            name=name, size=size, default_value=default_value, meta=meta, transformer=tr,
            vector_dist=dist, neighborhood=nb, value_cast=cast,
            neighborhood_size=(np.inf if vals is None else self._count),
        )

    def _count(self, value=None):
        return int(self.size) - 1


def values_of(c):
    if c["of"] == "seq":
        return list(c["seq"])
    if c["of"] == "powers":
        return [c["base"] ** i for i in range(c["count"])]
    if c["of"] == "int":
        return list(range(c["lower"], c["upper"] + 1))
    return None


def assemble(c):
    vals = values_of(c)
    n = len(vals) if vals else 0
    if c["of"] in ("seq", "powers"):
        if c["of"] == "seq":
            arr = np.array(c["seq"], dtype=object)
            tr, cast = TransformerSeq(seq=arr), None
        else:
            tr, cast = Powers(c["base"], c["count"]), int
        if c["dist"] == "weights":
            dist = ds.WeightedIntegerDiscreteDistribution(
                size=n, probabilities=np.array(c["w"][:n]) / sum(c["w"][:n]))
        elif c["dist"] == "scipy":
            dist = ds.ScipyDiscreteDistribution(rv=st.randint(0, n), _max_density=1 / n,
                                                lower_vectorized=np.float64(0), upper_vectorized=np.float64(n - 1))
        else:
            dist = ds.UniformIntegerDistribution(size=n)
        nb = ds.UniformIntegerDistribution(size=n).neighborhood
        return vals, dist, tr, nb, cast
    if c["of"] == "int":
        tr = UnitScaler(np.int64(c["lower"]), np.int64(c["upper"]), dtype=np.int64, log=c["log"])
        if c["dist"] == "uniform" and not c["log"]:
            dist = ds.UniformIntegerNormalizedDistribution(size=n)
        else:
            dist = ds.DiscretizedContinuousScipyDistribution(
                rv=rv_of({**c, "bounds": [0.0, 1.0]}), steps=n, lower_vectorized=np.float64(0),
                upper_vectorized=np.float64(1), log_scale=c["log"], transformer=tr if c["log"] else None)
        return vals, dist, tr, dist.neighborhood, int
    tr = UnitScaler(np.float64(c["lower"]), np.float64(c["upper"]), dtype=np.float64, log=c["log"])
    rv = rv_of({**c, "bounds": [0.0, 1.0]})
    if c["dist"] == "uniform":
        dist = ds.UnitUniformContinuousDistribution(pdf_max_density=1.0)
    else:
        dist = ds.ScipyContinuousDistribution(
            rv=rv, lower_vectorized=np.float64(0), upper_vectorized=np.float64(1),
            _max_density=float(rv.pdf(np.linspace(0, 1, 2001)).max()))
    return None, dist, tr, dist.neighborhood, float


def gen_custom(d):
    of = d.pick(["seq", "powers", "int", "int", "float"])
    c = {"of": of, **gen_rv(d), "def": d.int(0, 10**6), "log": d.chance(40)}
    c["dist"] = d.pick(["uniform", "weights", "scipy"])
    c["w"] = [d.pick([0.25, 1.0, 2.0, 5.0]) for _ in range(60)]
    if of == "seq":
        c["seq"] = d.pick([["a", "b", "c"], [1, 2], ["x", 1, 2.5, None], [f"v{i}" for i in range(d.int(4, 60))],
                           [3, 1, 2], [True, False], [0.5, -1.0, 7.0, 2.0, 1.0]])
    elif of == "powers":
        c["base"], c["count"] = d.pick([2, 3, 10]), d.int(2, 12)
    else:
        lo = d.int(1, 40) if c["log"] else d.int(-30, 40)
        c["lower"], c["upper"] = lo, lo + d.int(1, 60)
        if of == "float":
            f = d.pick([1.0, 0.1, 1e-3, 1e3])
            c["lower"], c["upper"] = c["lower"] * f, c["upper"] * f
    levels = len(values_of(c) or range(20))
    r = gen_requests(d, levels)
    r["ask"] = max(r["ask"], 1)
    other = d.pick(["child", "parent", "forbidden", "alone"])
    if other == "forbidden":  # what remains has to be likely enough to be sampled
        c["mu"], c["sd"], c["a"], c["b"] = 0.5, max(c["sd"], 0.5), min(c["a"], 1.5), min(c["b"], 2)
    return {"desc": c, "r": r, "other": other, "pick": d.int(0, 10**6)}


def check_custom(case):
    c, r = case["desc"], case["r"]
    vals = values_of(c)
    _, dist, tr, _, _ = assemble(c)
    ensure(tr.lower_vectorized == dist.lower_vectorized and tr.upper_vectorized == dist.upper_vectorized,
           f"a transformer for [{tr.lower_vectorized}, {tr.upper_vectorized}]")
    h = Custom("u", c, meta={"m": 1})
    same = Custom("u", c, meta={"m": 1})
    if not (c["of"] in ("seq", "powers") and c["dist"] == "weights"):
        ensure(h == same, "declared alike but not equal")
        ensure(h != Custom("v", c), "another name but equal")
    lo, up = (c["lower"], c["upper"]) if vals is None else (None, None)
    ftol_ = 0 if vals is not None else 1e-9 * (up - lo)

    def legal_(v):
        v = plain(v)
        if vals is None:
            return lo - ftol_ <= v <= up + ftol_
        return any(v == w and type(v) is type(w) for w in vals)

    # samples
    one = h.sample_value(seed=rs(r["seed"]))
    ensure(legal_(one) and bool(h.legal_value(one)), f"sampled {one!r}")
    many = h.sample_value(r["n"], seed=rs(r["seed"]))
    ensure(len(many) == r["n"] and all(legal_(v) for v in many), f"sampled {many!r}")
    ensure(np.all(h.legal_value(many)), f"sampled {many!r}, not legal")
    vec = h.sample_vector(r["n"], seed=rs(r["seed"]))
    ensure(np.all(h.legal_vector(vec)), f"sampled vectors {vec!r}, not legal")
    ensure(np.all((vec >= h.lower_vectorized) & (vec <= h.upper_vectorized)), f"sampled vectors {vec!r} outside")
    ensure(all(x == y for x, y in zip(h.to_value(vec), many)), "values of the sampled vectors")
    # every value
    probe = vals if vals is not None else [lo, up, (lo + up) / 2]
    arr = np.empty(len(probe), dtype=object)
    arr[:] = probe
    nums = arr.astype(float) if c["of"] in ("int", "float", "powers") else arr
    enc = h.to_vector(nums)
    ensure(np.all(h.legal_value(nums)) and np.all(h.legal_vector(enc)), "a declared value is not legal")
    back = h.to_value(enc)
    for v, w, e in zip(probe, back, enc):
        ensure(abs(v - w) <= ftol_ if vals is None else v == w, f"{v!r} comes back as {w!r}")
        e1 = h.to_vector(v)
        ensure(abs(float(e1) - float(e)) <= 1e-12, f"{v!r} encoded as {e1!r} alone, as {e!r} in a list")
        ensure(bool(h.legal_vector(e1)) and bool(h.legal_value(v)), f"{v!r} or its encoding not legal")
        w1 = h.to_value(e1)
        ensure(abs(v - w1) <= ftol_ if vals is None else (v == w1 and type(v) is type(w1)),
               f"{v!r} comes back as {w1!r} alone")
    if vals is not None:
        ensure(len(set(enc.tolist())) == len(vals), "two values with one encoding")
        ensure(not h.legal_value("no such"), "an undeclared value is legal")
    ensure(np.all(h.pdf_values(nums) >= 0), "densities")
    pdf = h.pdf_values(nums)
    if c["of"] in ("seq", "powers"):
        want = np.array(c["w"][: len(vals)]) if c["dist"] == "weights" else np.ones(len(vals))
        ensure(np.allclose(pdf, want / want.sum(), rtol=1e-9), f"densities {pdf!r}")
    # neighbours
    at = probe[r["at"] % len(probe)]
    if vals is not None:
        got = [plain(x) for x in h.neighbors_values(at, r["ask"], std=r["std"], seed=rs(r["seed"]))]
        ensure(len(got) == min(r["ask"], len(vals) - 1), f"{len(got)} neighbours, asked for {r['ask']} of {len(vals) - 1}")
        ensure(all(legal_(v) for v in got), f"neighbours {got!r}")
        ensure(all(v != at for v in got), f"{at!r} is among its neighbours {got!r}")
        ensure(all(a != b for i, a in enumerate(got) for b in got[:i]), f"neighbours {got!r} repeat")
        ensure(h.get_num_neighbors(at) == len(vals) - 1, "number of neighbours")
    else:
        ask = min(r["ask"], 8)
        got = [plain(x) for x in h.neighbors_values(at, ask, std=r["std"], seed=rs(r["seed"]))]
        ensure(len(got) == ask and all(legal_(v) for v in got), f"neighbours {got!r}")
    # a copy with another default
    new = h.copy(name="w", default_value=at)
    ensure(new.name == "w" and new.default_value == at and new.meta == {"m": 1} and new.size == h.size, "copy")
    # in a space
    cs = ConfigurationSpace(seed=r["seed"])
    cs.add(h)
    cat = CategoricalHyperparameter("k", ["on", "off"])
    val = probe[case["pick"] % len(probe)]
    if case["other"] != "alone":
        cs.add(cat)
    if case["other"] == "child":
        cs.add(EqualsCondition(cs["u"], cs["k"], "on"))
    elif case["other"] == "parent":
        cs.add(EqualsCondition(cs["k"], cs["u"], val))
    elif case["other"] == "forbidden" and val != h.default_value:
        cs.add(ForbiddenEqualsClause(cs["u"], val))
    near = (lambda x: abs(x - val) <= ftol_) if vals is None else (lambda x: x == val)

    def valid(cfg):
        a = {n: plain(cfg[n]) for n in cfg}
        if "u" in a:
            ensure(legal_(a["u"]), f"configuration {a!r}")
        if case["other"] == "child":
            ensure(("u" in a) == (a["k"] == "on"), f"configuration {a!r}")
        elif case["other"] == "parent":
            ensure("u" in a and ("k" in a) == near(a["u"]), f"configuration {a!r}")
        elif case["other"] == "forbidden" and val != h.default_value and vals is not None:
            ensure(a["u"] != val, f"configuration {a!r} is forbidden")
        cfg.check_valid_configuration()

    d0 = cs.get_default_configuration()
    valid(d0)
    ensure("u" not in d0 or d0["u"] == h.default_value, "default")
    if case["other"] == "forbidden" and vals is not None and len(vals) == 1:
        return None
    cfgs = cs.sample_configuration(8)
    for cfg in cfgs:
        valid(cfg)
        again = Configuration(cs, values=dict(cfg))
        ensure(vals is None or again == cfg, f"{dict(cfg)!r} rebuilt is another configuration")
    for cfg in get_one_exchange_neighbourhood(d0, seed=r["seed"] % 2**32):
        valid(cfg)
        ensure(cfg != d0, "a neighbour equal to the configuration")
    if vals is not None and case["other"] == "alone":
        got = {cfg["u"] for cfg in get_one_exchange_neighbourhood(d0, seed=3)}
        ensure(got <= set(vals) - {h.default_value} and got, f"neighbours {got!r}")
    new = pickle.loads(pickle.dumps(cs))
    ensure([dict(x) for x in new.sample_configuration(3)] == [dict(x) for x in cs.sample_configuration(3)],
           "samples after pickling")
    # saved and loaded with codecs of the user
    doc = cs.to_serialized_dict(encoders={Custom: ("mine", lambda x, enc: {
        "name": x.name, "desc": x.desc, "default_value": x.default_value, "meta": x.meta})})
    back = ConfigurationSpace.from_serialized_dict(doc, decoders={"hyperparameters": {
        "mine": lambda item, cs_, dec: Custom(item["name"], item["desc"], item["default_value"], item["meta"])},
        "conditions": {}, "forbiddens": {}})
    ensure(list(back) == list(cs) and type(back["u"]) is Custom, "loaded")
    ensure(back["u"].default_value == h.default_value and back["u"].desc == c, "loaded hyperparameter")
    ensure(len(back.conditions) == len(cs.conditions) and len(back.forbidden_clauses) == len(cs.forbidden_clauses),
           "loaded clauses")
    return [c["of"], c["dist"], case["other"]]


# ------------------------------------------------------------------ neighbours in an order
def gen_order(d):
    size = d.int(1, 9)
    return {"size": size, "at": d.int(0, size - 1), "n": d.int(1, 4), "seed": d.seed()}


def check_order(c):
    size, at = c["size"], c["at"]
    got = ordinal_neighborhood(np.float64(at), c["n"], size=size, seed=rs(c["seed"])).tolist()
    want = [float(x) for x in (at - 1, at + 1) if 0 <= x < size]
    ensure(len(got) == min(c["n"], len(want)) and set(got) <= set(want) and len(set(got)) == len(got),
           f"neighbours {got} of {at} in {size}")
    return ["order"] if size > 2 else None


_ = math
def gen_log_levels(d):
    """Evenly spaced values seen through a log scale."""
    lo = d.pick([0.01, 0.5, 1.0, 3.0, 20.0])
    k = d.int(2, 30)
    c = {**gen_rv(d), "lower": lo, "upper": lo + (k - 1) * d.pick([0.25, 0.5, 2.0, 5.0, 0.1]), "steps": k}
    return {**c, "bounds": [0.0, 1.0], "r": gen_requests(d, k)}


def check_log_levels(c):
    k, r = c["steps"], c["r"]
    tr = UnitScaler(np.float64(c["lower"]), np.float64(c["upper"]), dtype=np.float64, log=True)
    dist = ds.DiscretizedContinuousScipyDistribution(
        rv=rv_of(c), steps=k, lower_vectorized=np.float64(0), upper_vectorized=np.float64(1),
        log_scale=True, transformer=tr)
    step = (c["upper"] - c["lower"]) / (k - 1)
    span = math.log(c["upper"]) - math.log(c["lower"])
    levels = [(math.log(c["lower"] + i * step) - math.log(c["lower"])) / span for i in range(k)]
    tol = 1e-9
    for x in dist.sample_vector(r["n"], seed=rs(r["seed"])):
        ensure(level_index(levels, x, tol) is not None, f"sampled {x!r} of levels {levels!r}")
    here = r["at"] % k
    ask = max(1, r["ask"])
    got = dist.neighborhood(np.float64(levels[here]), ask, std=r["std"], seed=rs(r["seed"]))
    at = [level_index(levels, x, tol) for x in got]
    ensure(None not in at and here not in at and len(set(at)) == len(at),
           f"neighbours {got!r} of level {here} of {levels!r}")
    ensure(len(at) == min(ask, k - 1), f"{len(at)} neighbours of level {here}, asked for {ask} of {k - 1}")
    return ["all" if ask >= k - 1 else "some"]


PARTS = [part("log levels", gen_log_levels, check_log_levels, 2000), part("distributions", gen_dist, check_dist, 3000), part("custom", gen_custom, check_custom, 1500),
         part("order", gen_order, check_order, 200)]
