"""C23: imputing then deactivating inactive values gives back the configuration."""
import copy

from vp.lib import *
from ConfigSpace.util import deactivate_inactive_hyperparameters, impute_inactive_values

RULE = (
    "A case is a space with conditions, a valid configuration (from values, a vector, edits or "
    "sampling), an imputation strategy, and full assignments of legal values of which any "
    "subset of the inactive ones is passed on. Results are compared with the reference model. "
    "Non-trivial: at least one hyperparameter is inactive."
)
ASSUMPTIONS = ["an assignment whose active part is forbidden is expected to be refused"]


def gen(d):
    numeric = d.chance(25)  # so that a number can be legal for all inactive ones
    kinds = [("uf", 5), ("nf", 1), ("bf", 1), ("ui", 3)] if numeric else ALL_KINDS
    spec = space(d, 2, 8, kinds=kinds, small=d.chance(50), mixes=LIST_MIX, forbs=(0, 3), pcond=75,
                 nest=2)
    strategy = d.weighted([("default", 6), ("none", 1), ("number", 3 if not numeric else 12)])
    number = None
    if strategy == "number":
        h = d.pick(spec["hps"])
        number = float(d.pick(lattice(h))) if h["k"] in NUMS else d.pick([0.0, 1.0, 0.5, -1.0])
    extra = []
    for _ in range(d.int(1, 4)):
        a = full_assignment(d, spec)
        extra.append([a, d.subset(sorted(a), 0, len(a))])
    return {"spec": spec, "asg": valid_assignment(d, spec), "start": d.pick(["values", "vector", "sample", "default"]),
            "strategy": strategy, "number": number, "full": extra}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    if case["start"] == "sample":
        cfg = cs.sample_configuration()
    elif case["start"] == "default":
        cfg = cs.get_default_configuration()
    elif case["asg"] is None:
        raise Skip
    elif case["start"] == "values":
        cfg = make(cs, case["asg"])
    else:
        cfg = Configuration(cs, vector=vec_of(cs, case["asg"]))
    asg = asg_of(cfg)
    vec = cfg.get_array().copy()
    inactive = [n for n in m.order if n not in asg]
    lab = ["inactive"] if inactive else []

    fill = {n: default_of(m.hps[n]) for n in inactive}
    strategy = "default"
    if case["strategy"] == "number":
        strategy = case["number"]
        fill = {n: strategy for n in inactive}
    elif case["strategy"] == "none":
        strategy = None
    call = lambda: impute_inactive_values(cfg, strategy)  # noqa: E731
    if case["strategy"] == "default" and len(vec) % 2:
        call = lambda: impute_inactive_values(cfg)  # noqa: E731
    if strategy is None and inactive:
        ensure(raises(call, ValueError), "unknown strategy accepted")
    elif any(not legal(m.hps[n], v) for n, v in fill.items()):
        ensure(raises(call, ValueError, TypeError), f"illegal values imputed: {fill!r}")
        lab.append("refused")
    else:
        new = call()
        got = {n: plain(new[n]) for n in cs}
        want = {**asg, **fill}
        ensure(same_asg(m, got, want), f"imputed {got!r}, expected {want!r}")
        ensure(same_asg(m, asg_of(new), want), "iteration over the imputed configuration")
        ensure(not np.isnan(new.get_array()).any(), "the imputed vector has gaps")
        ensure(same_vec(new.get_array(), vec_of(cs, want)), "the imputed vector")
        ensure(asg_of(cfg) == asg and np.array_equal(cfg.get_array(), vec, equal_nan=True),
               "the original has changed")
        for kw in ({"configuration": dict(new)}, {"configuration": None, "vector": new.get_array()}):
            back = deactivate_inactive_hyperparameters(configuration_space=cs, **kw)
            ensure(same_asg(m, asg_of(back), asg), f"deactivated {asg_of(back)!r}, originally {asg!r}")
            if "vector" not in kw:
                ensure(back == cfg, "not equal to the original")
            back.check_valid_configuration()
        lab.append(case["strategy"])

    # any assignment of legal values
    for full, keep in case["full"]:
        act = m.active(full)
        if act is None:
            continue
        given = {n: v for n, v in full.items() if n in act or n in keep}
        want = m.prune(full)
        f = m.forbidden(want)
        if f is None:
            continue
        before = copy.deepcopy(given)
        v = vec_of(cs, given)
        for kw in ({"configuration": given}, {"configuration": None, "vector": v.copy()}):
            call = lambda: deactivate_inactive_hyperparameters(configuration_space=cs, **kw)  # noqa: E731
            if f:
                ensure(raises(call, ValueError), f"{given!r}: forbidden, but accepted")
                continue
            got = call()
            ensure(same_asg(m, asg_of(got), want), f"{given!r}: {asg_of(got)!r}, expected {want!r}")
            got.check_valid_configuration()
            ensure(same_vec(got.get_array(), vec_of(cs, want)), "vector of the result")
            if "vector" in kw:
                ensure(np.array_equal(kw["vector"], v, equal_nan=True), "the given vector has changed")
        ensure(given == before, "the given values have changed")
        if len(given) > len(act):
            lab.append("superfluous")
    if not inactive and "superfluous" not in lab:
        return None
    return sorted({*lab, *kinds_label(spec)})


PARTS = [part("impute", gen, check, 3000)]
