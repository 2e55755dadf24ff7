"""C36: omitted defaults are the documented ones, and the default configuration is made of defaults."""
from vp.lib import *
from ConfigSpace import Categorical, ConfigurationSpace, Float, Integer
from ConfigSpace import Beta, Normal, Uniform

RULE = (
    "A case is a hyperparameter declared without a default, or a space in which some are, "
    "built in random batches while default configurations are taken and edited in between. "
    "Omitted defaults are compared with the middle of the range, the centre or mode of the "
    "prior, the first or most probable choice; default configurations with the reference "
    "model. Non-trivial: a default was omitted (hyperparameters), at least one condition (spaces)."
)
ASSUMPTIONS = [
    "the middle of a whole-number range on log scale may be taken between the bounds or between "
    "the bounds widened by one half; middles that fall between two whole numbers may go either way",
    "with several equally probable choices any of them may be the default",
]


def middle(h):
    """Intervals in which the default may lie."""
    lo, up, k = float(h["lower"]), float(h["upper"]), h["k"]

    def at(a, b, t):
        if h["log"]:
            return math.exp(math.log(a) + t * (math.log(b) - math.log(a)))
        return a + t * (b - a)

    if k in ("nf", "ni"):
        at_ = [min(max(h["mu"], lo), up)]
    else:
        t = 0.5
        if k in ("bf", "bi") and h["alpha"] + h["beta"] > 2:
            t = (h["alpha"] - 1) / (h["alpha"] + h["beta"] - 2)
        at_ = [at(lo, up, t)]
        if k in INTS:
            at_.append(at(lo - 0.5, up + 0.5, t))
    tol = 1e-9 * max(abs(lo), abs(up)) + 2e-13
    if k in INTS:
        tol += 0.5
    return [(max(lo, x - tol), min(up, x + tol)) for x in at_]


def expected(h, got):
    """Is this an acceptable default for a hyperparameter declared without one?"""
    k = h["k"]
    if k in NUMS:
        return any(a <= got <= b for a, b in middle(h)) and (k not in INTS or got == int(got))
    if k == "cat":
        w = h.get("weights")
        if not w:
            return same_attr(got, h["choices"][0])
        return any(same_attr(got, c) for c, x in zip(h["choices"], w) if x == max(w))
    return same_attr(got, h["sequence"][0] if k == "ord" else h["value"])


def without_default(d, name, **kw):
    h = hp(d, name, mixes=LIST_MIX, **kw)
    h.pop("default", None)
    return h


def gen_hp(d):
    h = without_default(d, "x", kinds=HP_KINDS, small=d.chance(40))
    if h["k"] == "ni" and d.chance(60):  # a centre between two whole numbers
        mu = h["mu"] + d.pick([0.25, 0.75, -0.25, -0.75, 0.4375])
        if mu > 0 or not h["log"]:
            h["mu"] = mu
    return {"h": h, "none": d.chance(40)}


def check_hp(case):
    h = case["h"]
    k = h["k"]
    kw = hp_kwargs(h)
    if case["none"] and k in NUMS:
        kw["default_value"] = None
    forms = [CLS[k](**kw)]
    # the short functions
    if k in NUMS:
        dist = {"u": lambda: Uniform(), "n": lambda: Normal(h["mu"], h["sigma"]),
                "b": lambda: Beta(h["alpha"], h["beta"])}[k[0]]()
        fn = Integer if k in INTS else Float
        forms.append(fn("x", (h["lower"], h["upper"]), distribution=dist, log=h["log"]))
    elif k == "cat":
        forms.append(Categorical("x", h["choices"], weights=h.get("weights")))
    elif k == "ord":
        forms.append(Categorical("x", h["sequence"], ordered=True))
    for x in forms:
        v = plain(x.default_value)
        ensure(expected(h, v), f"default {v!r} of {x!r}")
        ensure(bool(x.legal_value(x.default_value)), f"illegal default {v!r} of {x!r}")
        # said explicitly it is the same hyperparameter
        if k != "const":
            ensure(CLS[k](**{**kw, "default_value": x.default_value}) == x, f"not equal to {x!r} with its default")
        cs = ConfigurationSpace()
        cs.add(x)
        got = cs.get_default_configuration()
        ensure(dict(got) == {"x": x.default_value}, f"default configuration {dict(got)!r} of {x!r}")
    return [k, "log" if h.get("log") else "plain"]


def gen_space(d):
    spec = space(d, 2, 7, small=d.chance(60), mixes=ALL_MIX, forbs=None, pcond=65)
    drop = [h["name"] for h in spec["hps"] if d.chance(50) and h["k"] != "const"]
    return {"spec": spec, "drop": drop, "cut": [d.int(0, 99) for _ in range(4)],
            "edit": [[d.int(0, 99), d.int(0, 99)] for _ in range(3)], "seed": d.seed()}


def check_space(case):
    spec = {**case["spec"], "hps": [dict(h) for h in case["spec"]["hps"]]}
    hps = spec["hps"]
    for h in hps:
        if h["name"] in case["drop"]:
            h.pop("default", None)
    objs = {h["name"]: build_hp(h) for h in hps}
    for h in hps:  # the reference knows them from now on
        v = plain(objs[h["name"]].default_value)
        if h["name"] in case["drop"]:
            ensure(expected(h, v), f"default {v!r} of {objs[h['name']]!r}")
            h["default"] = v
    m = Model(spec)
    cs = ConfigurationSpace(seed=case["seed"])
    conds = [m.conds[n] for n in m.order if n in m.conds]
    done = []

    def now():
        return Model({"hps": hps[: len(cs)], "conds": done, "forbs": []})

    def compare():
        mm = now()
        want = mm.default_config()
        for _ in range(2):
            got = cs.get_default_configuration()
            ensure(same_asg(mm, asg_of(got), want), f"default {asg_of(got)!r}, expected {want!r}")
            got.check_valid_configuration()
        # editing the one handed out does not change the next
        for a, b in case["edit"]:
            act = sorted(got)
            n = act[a % len(act)]
            lat = lattice(mm.hps[n])
            got[n] = lat[b % len(lat)]
        again = cs.get_default_configuration()
        ensure(same_asg(mm, asg_of(again), want), f"after an edit: {asg_of(again)!r}, expected {want!r}")
        cs.sample_configuration(3)
        again = cs.get_default_configuration()
        ensure(same_asg(mm, asg_of(again), want), f"after sampling: {asg_of(again)!r}, expected {want!r}")

    i = 0
    for c in case["cut"]:
        j = min(len(hps), i + c % 4)
        cs.add([objs[h["name"]] for h in hps[i:j]])
        i = j
        if i:
            compare()
    cs.add([objs[h["name"]] for h in hps[i:]])
    compare()
    for c in conds:
        cs.add(build_cond(c, cs))
        done.append(c)
        compare()
    ensure(cs == build_space(spec), "not equal to the space with the defaults spelled out")
    return ["conditions"] if conds else None


PARTS = [part("hyperparameter", gen_hp, check_hp, 4000), part("space", gen_space, check_space, 1200)]
