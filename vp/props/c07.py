"""C07: a hyperparameter is active exactly when its declared condition holds."""
from vp.lib import *

RULE = (
    "A case is a space of 2..9 hyperparameters with conditions of every shape (chains up to "
    "depth 6, diamonds, equal conditions on several children, nested conjunctions) and some "
    "assignments. The active set is computed by the reference model. Non-trivial: some "
    "hyperparameter is active in one tried configuration and inactive in another."
)
ASSUMPTIONS = ["condition chains up to depth 6; up to 9 hyperparameters"]


def gen(d):
    spec = space(d, 2, 9, small=d.chance(60), forbs=None, pcond=75, max_depth=5, nest=2)
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 5))]}


def gen_bool(d):
    """Binary parents: conditions are satisfied often, deep structure matters."""
    kinds = [("cat", 3), ("ui", 1), ("ord", 1)]
    n = d.int(3, 10)
    nm = names(d, n)
    hps = []
    for i in range(n):
        k = d.weighted(kinds)
        h = {"k": k, "name": nm[i]}
        if k == "ui":
            h.update(log=False, lower=0, upper=1, default=d.int(0, 1))
        else:
            h["choices" if k == "cat" else "sequence"] = [0, 1]
            h["default"] = d.int(0, 1)
        hps.append(h)
    conds = conditions(d, hps, pcond=80, max_depth=6, nest=2, pconj=55)
    spec = {"hps": d.shuffle(hps), "conds": conds, "forbs": [], "seed": d.seed()}
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(2, 6))]}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    states = {}

    def note(act):
        for n in m.conds:
            states.setdefault(n, set()).add(n in act)

    # the default
    want = m.default_config()
    cfg = cs.get_default_configuration()
    if want is not None:
        got = asg_of(cfg)
        ensure(same_asg(m, got, want), f"default is {got!r}, expected {want!r}")
        act = cs.get_active_hyperparameters(cfg)
        ensure(act == set(want), f"active in the default: {act!r}, expected {set(want)!r}")
        note(act)
    # assigned
    for full in case["asgs"]:
        want = m.prune(full)
        if want is None:
            continue
        try:
            cfg = make(cs, want)
        except ValueError as e:
            raise Violation(f"{want!r} sets exactly the active ones, but: {e}")
        act = cs.get_active_hyperparameters(cfg)
        ensure(act == set(want), f"active in {want!r}: {act!r}")
        note(set(want))
        # one more or one less is refused
        for n in m.hps:
            other = dict(want)
            if n in want:
                del other[n]
                what = "without the active"
            else:
                other[n] = full[n]
                what = "with the inactive"
            ensure(raises(lambda: make(cs, other), ValueError), f"{want!r} {what} {n!r} accepted")
        vec = vec_of(cs, want)
        ensure(cs.get_active_hyperparameters(Configuration(cs, vector=vec)) == set(want),
               "active set from a vector")
        # the conditions decide, not whether inactive ones carry a value
        for n in m.hps:
            if n not in want and not cs.children_of[n]:
                vec[cs.index_of[n]] = cs[n].to_vector(full[n])
        act = cs.get_active_hyperparameters(vec)
        ensure(act == set(want), f"active in {want!r} next to values of inactive ones: {act!r}")
    # sampled
    for cfg in cs.sample_configuration(6):
        got = asg_of(cfg)
        act = m.active(got)
        if act is None:
            continue
        ensure(act == set(got), f"sampled {got!r}, active by the conditions: {sorted(act)!r}")
        ensure(cs.get_active_hyperparameters(cfg) == act, f"active set of the sampled {got!r}")
        note(act)
    if not any(len(s) == 2 for s in states.values()):
        return None
    return kinds_label(spec)


PARTS = [part("any", gen, check, 2500), part("deep", gen_bool, check, 2500)]
