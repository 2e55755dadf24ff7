"""C08: every sampled configuration is valid."""
from vp.lib import *

RULE = (
    "A case is a space with conditions and forbidden clauses and a list of request sizes "
    "(including none and large ones); every returned configuration is judged by the reference "
    "model. Part 'cover' samples small finite spaces until every valid configuration must have "
    "appeared except with probability below 1e-13. Non-trivial: the space has a condition or a "
    "forbidden clause."
)
ASSUMPTIONS = [
    "forbidden clauses leave at least about a tenth of prior draws (rejection sampling has no "
    "bound otherwise)",
]


def gen(d):
    spec = space(d, 2, 7, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 4))
    sizes = [d.pick([None, 0, 1, 2, 3, 5, 17, 40]) for _ in range(d.int(1, 4))]
    return {"spec": spec, "sizes": sizes}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    for size in case["sizes"]:
        out = cs.sample_configuration() if size is None else cs.sample_configuration(size)
        if size is None:
            ensure(isinstance(out, Configuration), f"one sample is a {type(out)}")
            out = [out]
        elif size == 1:  # announced to become a list
            out = out if isinstance(out, list) else [out]
            ensure(len(out) == 1, f"asked for one configuration, got {len(out)}")
        else:
            ensure(isinstance(out, list), f"samples are a {type(out)}")
            ensure(len(out) == size, f"asked for {size} configurations, got {len(out)}")
        for cfg in out:
            ensure(isinstance(cfg, Configuration) and cfg.config_space is cs, "not of this space")
            a = asg_of(cfg)
            p = m.problems(a)
            ensure(not p, f"sampled {a!r}: {p}")
            cfg.check_valid_configuration()
            v = cfg.get_array()
            ensure(v.shape == (len(cs),), "length of the vector")
            ensure({n for n in cs if not np.isnan(v[cs.index_of[n]])} == set(a), "vector and values")
            for n, x in a.items():
                ensure(bool(cs[n].legal_vector(float(v[cs.index_of[n]]))),
                       f"illegal encoding of {n}: {v!r}")
                if m.hps[n]["k"] not in FLOATS:
                    ensure(float(v[cs.index_of[n]]) == float(cs[n].to_vector(x)),
                           f"encoding of {n}={x!r} differs from that of the same value")
    if len(out) > 1 and any(h["k"] in FLOATS and h["name"] not in m.conds for h in spec["hps"]):
        ensure(len({key(asg_of(c)) for c in out}) > 1, "all samples are the same")
    return kinds_label(spec) or None


def gen_cover(d):
    kinds = [("cat", 4), ("ui", 3), ("ord", 2), ("const", 1)]
    spec = space(d, 2, 4, kinds=kinds, small=True, forbs=(0, 3), logs=False, pcond=65)
    return {"spec": spec}


def check_cover(case):
    spec = case["spec"]
    m = Model(spec)
    if m.n_full() > 90:
        raise Skip
    allc = m.enumerate()

    def prob(a):
        p = 1.0
        for n, v in a.items():
            h = m.hps[n]
            if h["k"] == "cat" and h.get("weights"):
                p *= h["weights"][h["choices"].index(v)] / sum(h["weights"])
            else:
                p /= size_of(h)
        return p

    pos = [a for a in allc if prob(a) > 0]
    pmin = min(prob(a) for a in pos)
    # P(some is missed) <= 90 exp(-n pmin)
    n = int(math.ceil(36 / pmin))
    if n > 4000:
        raise Skip
    cs = build_space(spec)
    got = {key(asg_of(c)) for c in cs.sample_configuration(n)}
    want = {key(a): a for a in pos}
    for k, a in want.items():
        ensure(k in got, f"{a!r} is valid but not among {n} samples")
    extra = got - set(want)
    ensure(not extra, f"sampled invalid {list(extra)[:2]!r}")
    return kinds_label(spec) or None


def gen_empty(d):
    return {"seed": d.seed(), "n": d.int(2, 20), "name": d.pick([None, "e"])}


def check_empty(case):
    """A space without hyperparameters has one configuration, which is drawn every time."""
    cs = ConfigurationSpace(name=case["name"], seed=case["seed"])
    ensure(cs.sample_configuration(0) == [], "zero samples of the empty space")
    many = cs.sample_configuration(case["n"])
    ensure(isinstance(many, list) and len(many) == case["n"], f"{many!r} for {case['n']} samples")
    for c in [cs.get_default_configuration(), cs.sample_configuration(), *many]:
        ensure(isinstance(c, Configuration) and dict(c) == {} and c.get_array().shape == (0,), f"{c!r}")
        ensure(c == many[0], f"{c!r} is not {many[0]!r}")
        c.check_valid_configuration()
    # and is as good as any other once something is added
    cs.add(UniformIntegerHyperparameter("a", 0, 3))
    got = cs.sample_configuration(case["n"])
    ensure(len(got) == case["n"] and all(0 <= c["a"] <= 3 for c in got), f"{got!r}")
    return ["empty"]


PARTS = [part("empty", gen_empty, check_empty, 70), part("valid", gen, check, 2500), part("cover", gen_cover, check_cover, 700)]
