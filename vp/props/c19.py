"""C19: removing priors keeps the space and only flattens its distributions."""
from vp.lib import *

RULE = (
    "A case is a space with weighted, normal and beta hyperparameters under conditions and "
    "forbidden clauses, and some assignments. The space without priors is compared attribute by "
    "attribute with the description whose priors are replaced by uniform ones, the original with "
    "an untouched twin. Non-trivial: at least one prior is removed."
)
ASSUMPTIONS = ["normal hyperparameters are bounded, as the constructors require"]

UNIFORM = {"nf": "uf", "bf": "uf", "ni": "ui", "bi": "ui"}
KINDS = [("cat", 5), ("ui", 2), ("uf", 2), ("ord", 2), ("const", 1),
         ("nf", 3), ("ni", 3), ("bf", 3), ("bi", 3)]


def flat(h):
    out = {k: v for k, v in h.items() if k not in ("mu", "sigma", "alpha", "beta", "weights")}
    out["k"] = UNIFORM.get(h["k"], h["k"])
    if h["k"] != "const":
        out["default"] = default_of(h)
    return out


def gen(d):
    spec = space(d, 1, 7, kinds=KINDS, small=d.chance(50), mixes=ALL_MIX, forbs=(0, 3),
                 meta=d.chance(30), nest=2)
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 5))],
            "seed": d.seed()}


def check(case):
    spec = case["spec"]
    cs, twin = build_space(spec), build_space(spec)
    doc = cs.to_serialized_dict()
    out = cs.remove_hyperparameter_priors()
    ensure(out is not cs, "the same space is returned")
    want = dict(spec, hps=[flat(h) for h in spec["hps"]])
    m = conforms(out, want, case["asgs"], meta=False)
    ensure(list(out) == list(cs), f"order {list(out)!r}, originally {list(cs)!r}")
    ensure(cs == twin and cs.to_serialized_dict() == doc, "the original has changed")
    for a in case["asgs"]:  # the same verdict as the original
        b = m.prune(a)
        if b is not None and m.forbidden(b) is not None:
            ensure(raises(lambda: make(cs, b), ValueError) == raises(lambda: make(out, b), ValueError),
                   f"verdicts on {b!r} differ")
    # uniform: the same density everywhere on the scale
    for h in want["hps"]:
        if h["k"] == "const":
            continue
        p = np.asarray(out[h["name"]].pdf_values(lattice(h)), dtype=float)
        ensure(np.all(np.isfinite(p)) and p.min() > 0, f"density of {h['name']}: {p!r}")
        ensure(p.max() - p.min() <= 1e-9 * p.max(), f"{h['name']} is not uniform: {p!r}")
    # ... of the original still as it was
    for h in spec["hps"]:
        lat = lattice(h)
        ensure(np.array_equal(cs[h["name"]].pdf_values(lat), twin[h["name"]].pdf_values(lat)),
               f"density of {h['name']} in the original")
    for s in (cs, twin, out):
        s.seed(case["seed"])
    a, b = cs.sample_configuration(4), twin.sample_configuration(4)
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "samples of the original")
    direct = build_space(want)
    direct.seed(case["seed"])
    x, y = ([asg_of(c) for c in s.sample_configuration(6)] for s in (out, direct))
    ensure(x == y, f"samples {x!r}, of a space declared uniform {y!r}")
    for a in x:
        ensure(m.valid(a) is not False, f"invalid sample {a!r}")
    # removing twice is removing once
    again = out.remove_hyperparameter_priors()
    ensure(again == out, "removing again changes the space")
    removed = [h["k"] for h in spec["hps"] if h["k"] in UNIFORM or h.get("weights")]
    if not removed:
        return None
    return [*kinds_label(spec), *sorted(set(removed))]


PARTS = [part("flatten", gen, check, 2500)]
