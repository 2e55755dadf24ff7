"""C25: shorthand ways of declaring hyperparameters equal the explicit ones."""
from ConfigSpace import Beta, Categorical, ConfigurationSpace, Constant, Distribution, Float, Integer, Normal, Uniform

from vp.lib import *

RULE = (
    "A case is a list of hyperparameters, each with the shorthand that declares it (bounds, "
    "list, bare value, short constructor function with any options, or an object), and how the "
    "space receives them; or an unusable shorthand. The results are compared attribute by "
    "attribute with the description and by equality and samples with explicitly declared ones. "
    "Non-trivial: at least two shorthand forms, or an option, or a refusal."
)
ASSUMPTIONS = ["a pair of bounds is a real range as soon as one of them is a real number"]


def gen(d):
    nm = names(d, d.int(1, 6))
    items = []
    for n in nm:
        form = d.pick(["pair", "list", "value", "function", "object"])
        if form == "pair":
            h = hp(d, n, [("uf", 1), ("ui", 1)], logs=False)
            del h["default"]
            if h["k"] == "uf" and d.chance(30):  # one of them whole
                w = d.pick([0, 1, -3, 12])
                h["lower"], h["upper"] = d.pick([[w, w + 2.5], [w - 0.25, w]])
        elif form == "list":
            h = hp(d, n, [("cat", 1)], mixes=LIST_MIX, weights=False, default=0)
        elif form == "value":
            h = {"k": "const", "name": n, "value": d.pick(["c", 1, 0.5, "", True, None, -3, "(1, 2)"])}
        else:
            h = hp(d, n, HP_KINDS if form == "object" else
                   [k for k in HP_KINDS if k[0] != "const"], mixes=LIST_MIX, meta=d.chance(30))
            if h["k"] in NUMS and d.chance(30):
                del h["default"]
        items.append([form, h])
    return {"items": items, "how": d.pick(["first", "space", "sequence", "first sequence", "name+space"]),
            "seed": d.seed(), "meta": d.pick(METAS), "explicit": d.chance(50),
            "numpy": d.chance(25)}


def short(h, explicit):
    """Through Float, Integer or Categorical.  explicit: spell out the defaults too."""
    k = h["k"]
    kw = {}
    if h.get("meta") is not None or explicit:
        kw["meta"] = h.get("meta")
    if "default" in h:
        kw["default"] = h["default"]
    if k in NUMS:
        if h["log"] or explicit:
            kw["log"] = h["log"]
        if k in ("nf", "ni"):
            kw["distribution"] = Normal(h["mu"], h["sigma"])
        elif k in ("bf", "bi"):
            kw["distribution"] = Beta(h["alpha"], h["beta"])
        elif explicit:
            kw["distribution"] = Uniform()
        return (Float if k in FLOATS else Integer)(h["name"], (h["lower"], h["upper"]), **kw)
    if k == "ord":
        return Categorical(h["name"], list(h["sequence"]), ordered=True, **kw)
    if h.get("weights"):
        kw["weights"] = list(h["weights"])
    if explicit:
        kw["ordered"] = False
    return Categorical(h["name"], list(h["choices"]), **kw)


def value_of(form, h, explicit, numpy=False):
    if form == "pair":
        if numpy:  # bounds taken from an array
            return tuple(np.array([h["lower"], h["upper"]]))
        return (h["lower"], h["upper"])
    if form == "list":
        return list(h["choices"])
    if form == "value":
        return h["value"]
    return short(h, explicit) if form == "function" else build_hp(h)


def conform(x, h):
    full = h["k"] not in NUMS or "default" in h
    hp_conforms(x, h, default=full)
    if not full:
        v = x.default_value
        ensure(bool(x.legal_value(v)), f"{h['name']}: the default {v!r} is not legal")
        e = float(x.to_vector(v))
        if h["k"] in ("uf", "ui"):
            # the middle of the scale, up to rounding to a whole number
            # (values are rounded to 13 decimals)
            tol = 1e-9 + 1e-12 / min(h["upper"] - h["lower"], abs(h["lower"]) if h["log"] else 1e9)
            if h["k"] == "ui":
                w = math.log(h["upper"] / h["lower"]) if h["log"] else h["upper"] - h["lower"]
                tol += (math.log(1 + 0.51 / max(v - 0.5, 0.5)) if h["log"] else 0.5) / w
            ensure(abs(e - 0.5) <= tol, f"{h['name']}: the default {v!r} is not in the middle")
        elif h["k"] in ("nf", "ni"):
            mu = min(max(h["mu"], h["lower"]), h["upper"])
            tol = ftol(h) if h["k"] == "nf" else 0.5
            ensure(abs(v - mu) <= tol, f"{h['name']}: the default {v!r} is not the most likely value")


def check(case):
    items, how = case["items"], case["how"]
    if "sequence" in how:
        objs = [short(h, case["explicit"]) if f == "function" else build_hp(h) for f, h in items]
    else:
        objs = {h["name"]: value_of(f, h, case["explicit"], case["numpy"]) for f, h in items}
    if how in ("first", "first sequence"):
        cs = ConfigurationSpace(objs, seed=case["seed"])
        name = None
    elif how == "name+space":
        cs = ConfigurationSpace("the name", case["seed"], case["meta"], space=objs)
        name = "the name"
    else:
        cs = ConfigurationSpace(name="the name", seed=case["seed"], meta=case["meta"], space=objs)
        name = "the name"
    meta = case["meta"] if name else None
    ensure(cs.name == name and cs.meta == meta, f"name {cs.name!r} meta {cs.meta!r}")
    ref = ConfigurationSpace(name=name, seed=case["seed"], meta=meta)
    ref.add([build_hp(h) for _, h in items])
    ensure(cs == ref and ref == cs, "not equal to the explicit space")
    ensure(list(cs) == list(ref), "order")
    ensure(sorted(cs) == sorted(h["name"] for _, h in items), "names")
    for form, h in items:
        x = cs[h["name"]]
        conform(x, h)
        ensure(x == ref[h["name"]], f"{h['name']} is not equal to the explicit one")
        y = build_hp(h)
        v = x.default_value
        ensure(same_attr(v, y.default_value), f"default of {h['name']}")
        lat = [v, *lattice(h)[:3]]
        ensure(np.array_equal(x.pdf_values(lat), y.pdf_values(lat)), f"density of {h['name']}")
    ensure(cs.to_serialized_dict() == ref.to_serialized_dict(), "documents")
    a, b = cs.sample_configuration(4), ref.sample_configuration(4)
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "samples")
    forms = {f for f, _ in items}
    if len(items) < 2:
        return None
    return [how, *sorted(forms)]


def gen_bad(d):
    op = d.pick(["one", "three", "empty pair", "empty list", "inverted", "equal", "duplicates", "ordered weights",
                 "distribution", "integer distribution", "log zero", "default", "no pair", "weights length", "unknown item"])
    return {"op": op, "n": d.int(0, 50), "w": d.int(1, 9), "real": d.chance(50),
            "alone": d.chance(50), "name": d.pick(["a", "zz", "x:y"])}


def check_bad(case):
    op, lo, w, real, name = case["op"], case["n"], case["w"], case["real"], case["name"]
    up = lo + w
    if real:
        lo, up = float(lo), float(up)
    fn = Float if real else Integer
    dict_ = {
        "one": (lo,), "three": (lo, up, up + 1), "empty pair": (), "empty list": [],
        "inverted": (up, lo), "equal": (lo, lo), "duplicates": [lo, up, lo],
    }
    if op in dict_:
        space_ = {name: dict_[op]}
        if not case["alone"]:
            space_ = {"first": [1, 2], **space_, "last": 3}
        call = lambda: ConfigurationSpace(space_)  # noqa: E731
    elif op == "ordered weights":
        call = lambda: Categorical(name, [1, 2], ordered=True, weights=[1, 2])  # noqa: E731
    elif op in ("distribution", "integer distribution"):
        call = lambda: fn(name, (lo, up), distribution=Distribution())  # noqa: E731
    elif op == "log zero":
        call = lambda: fn(name, (0, up), log=True)  # noqa: E731
    elif op == "default":
        call = lambda: fn(name, (lo, up), default=up + 1)  # noqa: E731
    elif op == "no pair":
        call = lambda: fn(name, (lo, up, up))  # noqa: E731
    elif op == "weights length":
        call = lambda: Categorical(name, [1, 2], weights=[1.0] * (2 + w))  # noqa: E731
    else:
        call = lambda: ConfigurationSpace([Constant("c", 1), 5])  # noqa: E731
    ensure(raises(call, ValueError, TypeError), f"{op} accepted")
    return [op]


def gen_bounds(d):
    return {"bounds": [list(float_bounds(d, False)) for _ in range(d.int(1, 6))],
            "before": d.int(0, 2)}


def check_bounds(case):
    first = {f"a{i}": [1, 2] for i in range(case["before"])}
    cs = ConfigurationSpace(first, seed=1)
    cs.generate_all_continuous_from_bounds(case["bounds"])
    ref = ConfigurationSpace(first, seed=1)
    ref.add([UniformFloatHyperparameter(f"x{i}", lo, up) for i, (lo, up) in enumerate(case["bounds"])])
    ensure(cs == ref, "not equal to the explicit space")
    for i, (lo, up) in enumerate(case["bounds"]):
        conform(cs[f"x{i}"], {"k": "uf", "name": f"x{i}", "lower": lo, "upper": up, "log": False})
    ensure(len(cs) == len(case["bounds"]) + len(first), "number of hyperparameters")
    return ["bounds"] if len(case["bounds"]) > 1 else None


PARTS = [part("shorthand", gen, check, 3500), part("refused", gen_bad, check_bad, 1500),
         part("bounds", gen_bounds, check_bounds, 400)]
