"""C10: editing a configuration keeps it valid or leaves it untouched."""
from vp.lib import *
from vp.props.c09 import illegal_value

RULE = (
    "A case is a space with conditions and forbidden clauses, a start configuration (default, "
    "from values, from a vector, or sampled) and a history of up to 12 assignments, legal or "
    "not. After each step the configuration is compared with the reference model. Non-trivial: "
    "at least two accepted assignments and one that switches a hyperparameter on or off or is "
    "refused."
)
ASSUMPTIONS = []


def gen(d):
    spec = space(d, 2, 8, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 3), pcond=70)
    steps = []
    for _ in range(d.int(2, 12)):
        h = d.pick(spec["hps"])
        if d.chance(6):
            steps.append([h["name"], illegal_value(d, h)])
        elif d.chance(2):
            steps.append(["no such name", 1])
        else:
            steps.append([h["name"], d.pick(lattice(h))])
    return {"spec": spec, "start": d.pick(["values", "default", "vector", "sample"]),
            "asg": valid_assignment(d, spec), "steps": steps}


def gen_deep(d):
    """Long chains and diamonds of small parents, so that edits cascade."""
    spec = space(d, 4, 9, kinds=[("cat", 4), ("ord", 2), ("ui", 2)], small=True, forbs=(0, 2),
                 pcond=85, pconj=50, nest=2, logs=False)
    top = spec["hps"]
    m = Model(spec)
    inner = [h for h in top if m.children[h["name"]]] or top
    steps = []
    for _ in range(d.int(3, 12)):
        h = d.pick(inner) if d.chance(70) else d.pick(top)
        steps.append([h["name"], d.pick(lattice(h))])
    return {"spec": spec, "start": d.pick(["values", "default", "vector", "sample"]),
            "asg": valid_assignment(d, spec, m), "steps": steps}


def gen_web(d):
    spec = web(d)
    m = Model(spec)
    inner = [h for h in spec["hps"] if m.children[h["name"]]] or spec["hps"]
    steps = []
    conditional = {c["child"] for c in spec["conds"]}
    roots = [h for h in inner if h["name"] not in conditional] or inner
    for _ in range(d.int(2, 12)):
        h = d.pick(roots) if d.chance(50) else d.pick(inner)
        steps.append([h["name"], d.pick(lattice(h))])
    return {"spec": spec, "start": d.pick(["values", "default", "vector", "sample"]),
            "asg": valid_assignment(d, spec, m), "steps": steps}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    if case["start"] == "default":
        cfg = cs.get_default_configuration()
    elif case["start"] == "sample":
        cfg = cs.sample_configuration()
    elif case["asg"] is None:
        raise Skip
    elif case["start"] == "values":
        cfg = make(cs, case["asg"])
    else:
        cfg = Configuration(cs, vector=vec_of(cs, case["asg"]))
    cur = asg_of(cfg)
    other = Configuration(cs, vector=cfg.get_array().copy())
    other_asg, other_hash = asg_of(other), hash(other)
    accepted = refused = switched = 0
    for name, value in case["steps"]:
        if name not in m.hps or not legal(m.hps[name], value):
            new, probs = None, {"illegal"}
        else:
            new, probs = m.set_value(cur, name, value)
            if probs is None:
                break
        before = cfg.get_array().copy()
        try:
            cfg[name] = value
        except (ValueError, KeyError) as e:
            ensure(probs, f"{cur!r}: {name}={value!r} is fine, but {type(e).__name__}: {e}")
            ensure(np.array_equal(cfg.get_array(), before, equal_nan=True),
                   f"{cur!r}: refused {name}={value!r} changed the vector")
            got = asg_of(cfg)
            ensure(got == cur, f"{cur!r}: refused {name}={value!r} gives {got!r}")
            refused += 1
            continue
        ensure(not probs, f"{cur!r}: {name}={value!r} accepted although {probs}")
        got = asg_of(cfg)
        ensure(same_asg(m, got, new), f"{cur!r} with {name}={value!r}: {got!r}, expected {new!r}")
        cfg.check_valid_configuration()
        for n in got:  # untouched discrete ones are the same exactly
            if n != name and n in cur and m.hps[n]["k"] not in FLOATS:
                ensure(got[n] == cur[n], f"{n} changed from {cur[n]!r} to {got[n]!r}")
        ensure({n for n in cs if not np.isnan(cfg.get_array()[cs.index_of[n]])} == set(got),
               "vector and values disagree")
        ensure(cs.get_active_hyperparameters(cfg) == set(got), "active set after the edit")
        switched += set(got) != set(cur)
        accepted += 1
        cur = got
    ensure(asg_of(other) == other_asg and hash(other) == other_hash,
           "another configuration changed")
    if accepted < 2 or not (refused or switched):
        return None
    return kinds_label(spec) + ["switched"] * bool(switched) + ["refused"] * bool(refused)


PARTS = [part("any", gen, check, 3000), part("cascade", gen_deep, check, 2500),
         part("web", gen_web, check, 7000)]
