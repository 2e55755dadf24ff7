"""C18: nesting a space inside another preserves its meaning and its source."""
from vp.lib import *
from ConfigSpace import Constant

RULE = (
    "A case is an outer space and one to three spaces nested into it one after another, each "
    "with a prefix, a delimiter and possibly a parent value (the parent may itself have been "
    "nested before). The result is compared with the flat description of the composition: "
    "attributes, clauses, verdicts on generated assignments, equality and samples. Non-trivial: "
    "a nested space with a condition or forbidden clause, or a parent value."
)
ASSUMPTIONS = ["compositions in which two hyperparameters get the same name are expected to be refused"]

PREFIXES = ["m", "svm", "x", "p_1", "A", "x:y", "net"]
DELIMS = [":", ":", ":", "_", "", ".", "__"]


def new_name(prefix, delim):
    pd = prefix + delim

    def f(n):
        if n in ("", prefix):
            return prefix
        return n if n.startswith(pd) else pd + n

    return f


def compose(spec, add):
    """The flat description of adding add["inner"] to spec."""
    f = new_name(add["prefix"], add["delim"])
    inner = add["inner"]
    hps = [dict(h, name=f(h["name"])) for h in inner["hps"]]
    conds = [rename_cond(c, f) for c in inner["conds"]]
    out = dict(
        spec,
        hps=spec["hps"] + hps,
        conds=spec["conds"] + conds,
        forbs=spec["forbs"] + [rename_forb(x, f) for x in inner["forbs"]],
    )
    if add["parent"] is not None:
        inside = {c["child"] for c in conds}
        out["conds"] = out["conds"] + [
            {"op": "eq", "child": h["name"], "parent": add["parent"], "value": add["value"]}
            for h in hps if h["name"] not in inside
        ]
    return out


def clash(spec):
    n = [h["name"] for h in spec["hps"]]
    return len(set(n)) < len(n)


def gen(d):
    spec = space(d, 1, 5, small=d.chance(50), mixes=ALL_MIX, forbs=(0, 2), meta=d.chance(30),
                 max_depth=1)
    adds, cur = [], spec
    for _ in range(d.weighted([(1, 4), (2, 3), (3, 1)])):
        inner = space(d, 1, 4, small=d.chance(50), mixes=ALL_MIX, forbs=(0, 2),
                      meta=d.chance(40), max_depth=2, pcond=65, nest=2)
        prefix, delim = d.pick(PREFIXES), d.pick(DELIMS)
        if d.chance(25):  # the empty name, the prefix itself, a prefixed name or nearly one
            old = d.pick(inner["hps"])["name"]
            new = d.pick(["", prefix, prefix + delim + old, prefix + old, prefix + "w" + delim + old,
                          prefix[:-1] + delim + old, old + delim + prefix, delim + old,
                          prefix + delim, prefix.swapcase() + delim + old])
            if not any(h["name"] == new for h in inner["hps"]):
                f = {old: new}
                inner["hps"] = [dict(h, name=f.get(h["name"], h["name"])) for h in inner["hps"]]
                inner["conds"] = [rename_cond(c, lambda n: f.get(n, n)) for c in inner["conds"]]
                inner["forbs"] = [rename_forb(c, lambda n: f.get(n, n)) for c in inner["forbs"]]
        add = {"prefix": prefix, "delim": delim, "inner": inner, "parent": None, "value": None}
        if d.chance(65):
            h = d.pick(cur["hps"])
            add["parent"], add["value"] = h["name"], d.pick(lattice(h))
        adds.append(add)
        nxt = compose(cur, add)
        if clash(nxt):
            break
        cur = nxt
    return {"spec": spec, "adds": adds, "seed": d.seed(),
            "asgs": [full_assignment(d, cur) for _ in range(d.int(1, 5))]}


def check(case):
    spec = case["spec"]
    cs = build_space(spec)
    cur = spec
    lab = set()
    sources = []
    for add in case["adds"]:
        inner, twin = build_space(add["inner"]), build_space(add["inner"])
        doc = inner.to_serialized_dict()
        kw = {}
        if add["delim"] != ":":
            kw["delimiter"] = add["delim"]
        if add["parent"] is not None:
            kw["parent_hyperparameter"] = {"parent": cs[add["parent"]], "value": add["value"]}
            lab.add("parent")
        call = lambda: cs.add_configuration_space(add["prefix"], inner, **kw)  # noqa: E731
        nxt = compose(cur, add)
        if clash(nxt):
            ensure(raises(call, ValueError), "two hyperparameters of the same name accepted")
            ensure(inner == twin, "the refused space has changed")
            return [*lab, "clash"]
        ret = call()
        ensure(ret is inner, "the added space is not returned")
        cur = nxt
        ensure(inner == twin and list(inner) == list(twin), "the added space has changed")
        ensure(inner.to_serialized_dict() == doc, "the document of the added space has changed")
        sources.append((add, inner, twin))
        lab |= set(kinds_label(add["inner"]))
    m = conforms(cs, cur, case["asgs"])
    ensure(cs.name == spec.get("name") and cs.meta == spec.get("meta"), "name or meta of the outer space")
    flat = build_space(cur)
    ensure(cs == flat and flat == cs, "not equal to the space declared at once")
    ensure(list(cs) == list(flat), f"order {list(cs)!r}, declared at once {list(flat)!r}")
    for add, inner, twin in sources:
        f = new_name(add["prefix"], add["delim"])
        for n in inner:
            a, b = inner[n], cs[f(n)]
            x = a.default_value
            ensure(float(a.to_vector(x)) == float(b.to_vector(x)), f"encoding of {n}")
            ensure(float(np.ravel(a.pdf_values([x]))[0]) == float(np.ravel(b.pdf_values([x]))[0]),
                   f"density of {n}")
        for s in (inner, twin):
            s.seed(case["seed"])
        ensure([asg_of(c) for c in inner.sample_configuration(3)]
               == [asg_of(c) for c in twin.sample_configuration(3)], "samples of the added space")
    # what happens to the sources later is of no concern to the composition
    doc = cs.to_serialized_dict()
    for _, inner, _ in sources:
        inner.add(Constant("later", 1))
    ensure(cs.to_serialized_dict() == doc and cs == flat, "the composition follows its source")
    cs.seed(case["seed"])
    flat.seed(case["seed"])
    a, b = cs.sample_configuration(6), flat.sample_configuration(6)
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "samples differ from the flat space")
    for x in a:
        ensure(m.valid(asg_of(x)) is not False, f"invalid sample {asg_of(x)!r}")
    if not lab:
        return None
    return [*lab, f"{len(sources)} nested"]


PARTS = [part("nest", gen, check, 2000)]
