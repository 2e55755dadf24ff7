"""C11: a configuration is one coherent mapping of its active values."""
from vp.lib import *
from vp.props.c29 import gen_space

RULE = (
    "A case is a space and two valid assignments; configurations are built from values, from "
    "vectors, in an equal space built separately, by sampling and by editing. All views are "
    "compared with each other. Non-trivial: the space has at least two hyperparameters and the "
    "two assignments differ. Part spaces: the same values in two spaces that differ in one "
    "attribute (or only in what does not matter); non-trivial: the values are valid in both."
)
ASSUMPTIONS = [
    "values rebuilt from a vector may differ from the given real values by rounding; then only "
    "closeness is asked for",
]


def gen(d):
    spec = space(d, 1, 7, small=d.chance(60), mixes=LIST_MIX, forbs=(0, 2), meta=d.chance(20))
    m = Model(spec)
    return {"spec": spec, "a": valid_assignment(d, spec, m), "b": valid_assignment(d, spec, m),
            "edit": [[h["name"], d.pick(lattice(h))] for h in d.subset(spec["hps"], 0, 3)]}


def views(cs, cfg, m):
    a = asg_of(cfg)
    v = cfg.get_array()
    ensure(v.shape == (len(cs),), f"vector of shape {v.shape}")
    on = [n for n in cs if not np.isnan(v[cs.index_of[n]])]
    ensure(list(cfg) == on, f"iteration {list(cfg)!r}, vector {on!r}")
    ensure(list(cfg.keys()) == on, f"keys {list(cfg.keys())!r}")
    dct = dict(cfg)
    ensure(list(dct) == on, f"dict has {list(dct)!r}")
    ensure([k for k, _ in cfg.items()] == on, "items")
    for (k, x), y in zip(cfg.items(), cfg.values()):
        ensure(plain(x) == plain(y) == a[k] == plain(dct[k]) == plain(cfg.get(k)) == plain(cfg[k]),
               f"different views of {k}")
    for n in cs:
        ensure((n in cfg) == (n in a), f"membership of {n}")
        if n in a:
            h = m.hps[n]
            ensure(legal(h, a[n]), f"{n}={a[n]!r} is not in its domain")
            w = float(v[cs.index_of[n]])
            ensure(same_value(h, cs[n].to_value(w), a[n]), f"{n}={a[n]!r} is encoded as {w}")
        else:
            sentinel = object()
            ensure(cfg.get(n) is None and cfg.get(n, sentinel) is sentinel, f"get of inactive {n}")
            ensure(raises(lambda: cfg[n], KeyError), f"lookup of inactive {n}")
    ensure("no such" not in cfg and 3 not in cfg, "membership of foreign keys")
    ensure(raises(lambda: cfg["no such"], KeyError), "lookup of an unknown name")
    ensure(cfg == cfg and not cfg != cfg and hash(cfg) == hash(cfg), "not equal to itself")
    ensure(cfg != a and cfg != 3 and not cfg == "x", "equal to something else")
    return a


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs, cs2 = build_space(spec), build_space(spec)
    cfgs = []
    for a in (case["a"], case["b"]):
        if a is None:
            raise Skip
        c = make(cs, a)
        ensure(same_asg(m, asg_of(c), a), f"built from {a!r}: {asg_of(c)!r}")
        for n, x in a.items():
            if m.hps[n]["k"] in FLOATS:
                ensure(abs(c[n] - x) <= 1e-13, f"{n}={x!r} became {c[n]!r}")
        cfgs += [c, make(cs, dict(c)), make(cs2, a), Configuration(cs, vector=vec_of(cs, a)),
                 Configuration(cs, vector=c.get_array()),
                 Configuration(cs2, vector=c.get_array().reshape(-1, 1)),
                 Configuration(cs, values=dict(c), origin="x", config_id=7)]
    cfgs += cs.sample_configuration(3)
    e = make(cs, case["a"])
    hash(e), dict(e)  # fill whatever is cached
    for n, x in case["edit"]:
        try:
            e[n] = x
        except ValueError:
            pass
    cfgs.append(e)
    # lookups in different orders before any view was taken
    for a in (case["a"], case["b"]):
        c = Configuration(cs, vector=vec_of(cs, a))
        for n in list(a)[::-1]:
            ensure(same_value(m.hps[n], c[n], a[n]), f"{n} from the vector of {a!r}")
            c.get("no such")
        cfgs.append(c)
    asgs = [views(c.config_space, c, m) for c in cfgs]
    for i, c in enumerate(cfgs):
        for j in range(i):
            o = cfgs[j]
            eq = c == o
            ensure(eq == (o == c) and (c != o) == (not eq), "equality is not symmetric")
            ensure(eq == (asgs[i] == asgs[j]),
                   f"{asgs[i]!r} == {asgs[j]!r} gives {eq}")
            if eq:
                ensure(hash(c) == hash(o), f"equal but different hashes: {asgs[i]!r}")
    # built from each other's values
    for c in cfgs:
        ensure(make(c.config_space, dict(c)) == c, f"rebuilt from the values of {c!r}")
        r = Configuration(c.config_space, vector=c.get_array().copy())
        ensure(same_asg(m, asg_of(r), asg_of(c)), f"rebuilt from the vector of {c!r}")
        if not any(m.hps[n]["k"] in FLOATS for n in c):
            ensure(r == c and hash(r) == hash(c), f"rebuilt from the vector of {c!r}")
    if len(spec["hps"]) < 2 or case["a"] == case["b"]:
        return None
    return kinds_label(spec)


def check_space(case):
    """Equal values in two spaces: equal exactly if the spaces are."""
    if case["equal"] is None:
        raise Skip
    a = build_space(case["spec"])
    try:
        b = build_space(case["other"])
    except ValueError:
        raise Skip  # the changed default configuration is forbidden
    n = 0
    for c in [a.get_default_configuration(), *a.sample_configuration(3)]:
        try:
            o = make(b, dict(c))
        except ValueError:
            continue
        if asg_of(o) != asg_of(c):
            continue
        n += 1
        what = f"{asg_of(c)!r} in a space with another {case['what']}"
        ensure((c == o) is case["equal"] and (o == c) is case["equal"], f"{what}: equality")
        ensure((c != o) is not case["equal"], f"{what}: != contradicts ==")
        if case["equal"]:
            ensure(hash(c) == hash(o), f"{what}: equal but with different hashes")
    return [case["what"]] if n else None


PARTS = [part("views", gen, check, 2000), part("spaces", gen_space, check_space, 1200)]
