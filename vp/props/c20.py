"""C20: the order and batching of additions does not matter."""
import warnings

from vp.lib import *
from ConfigSpace import ConfigurationSpace

RULE = (
    "A case is a space and an admissible order of its hyperparameters, conditions and forbidden "
    "clauses (each clause after the hyperparameters it mentions), cut into batches that are "
    "added as single items, argument lists, lists, generators, nested lists or through the "
    "older methods. The result is compared with the space declared at once. Non-trivial: at "
    "least two batches and a condition or forbidden clause."
)
ASSUMPTIONS = ["forbidden clauses allow the default also while conditions are still missing"]

FORMS = ["args", "list", "tuple", "generator", "nested", "single", "old"]


def gen(d):
    spec = space(d, 2, 8, small=d.chance(50), mixes=ALL_MIX, forbs=(0, 3), any_order=True,
                 pcond=65, nest=2, meta=d.chance(20))
    # a random linear extension: draw among the items whose hyperparameters are there
    todo = [["h", i] for i in range(len(spec["hps"]))]
    todo += [["c", i] for i in range(len(spec["conds"]))]
    todo += [["f", i] for i in range(len(spec["forbs"]))]
    present, order = set(), []

    def needs(kind, i):
        if kind == "h":
            return set()
        if kind == "c":
            c = spec["conds"][i]
            return {c["child"], *cond_parents(c)}
        return set(forb_names(spec["forbs"][i]))

    style = d.pick(["any", "late", "early"])
    while todo:
        ready = [t for t in todo if needs(*t) <= present]
        if style == "early":  # clauses as soon as possible
            ready = [t for t in ready if t[0] != "h"] or ready
        t = d.pick(ready)
        todo.remove(t)
        order.append(t)
        if t[0] == "h":
            present.add(spec["hps"][t[1]]["name"])
    batches = []
    while order:
        k = d.int(1, min(6, len(order)))
        b, order = order[:k], order[k:]
        form = d.pick(FORMS)
        batches.append([form, d.shuffle(b) if form not in ("single", "old") else b])
    return {"spec": spec, "batches": batches, "seed": d.seed(), "init": d.chance(20)}


def check(case):
    spec = case["spec"]
    ref = build_space(spec)
    hps = {h["name"]: build_hp(h) for h in spec["hps"]}
    cs = ConfigurationSpace(name=spec.get("name"), seed=spec["seed"], meta=spec.get("meta"))

    def item(kind, i):
        if kind == "h":
            return hps[spec["hps"][i]["name"]]
        if kind == "c":
            return build_cond(spec["conds"][i], hps)
        return build_forb(spec["forbs"][i], hps)

    for form, batch in case["batches"]:
        items = [item(*t) for t in batch]
        if form == "args":
            cs.add(*items)
        elif form == "list":
            cs.add(items)
        elif form == "tuple":
            cs.add(tuple(items[:1]), tuple(items[1:]))
        elif form == "generator":
            cs.add(x for x in items)
        elif form == "nested":
            cs.add([items[:1], [items[1:]]])
        elif form == "single":
            for x in items:
                cs.add(x)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for (kind, _), x in zip(batch, items):
                    if kind == "h":
                        ensure(cs.add_hyperparameter(x) is x, "returned hyperparameter")
                    elif kind == "c":
                        ensure(cs.add_condition(x) is x, "returned condition")
                    else:
                        ensure(cs.add_forbidden_clause(x) is x, "returned clause")
        # at every stage parents come first
        pos = {n: i for i, n in enumerate(cs)}
        for c in cs.conditions:
            for p in c.dlcs if hasattr(c, "dlcs") else [c]:
                ensure(pos[p.parent.name] < pos[p.child.name], f"{p!r}: child first in {list(cs)!r}")
        cs.get_default_configuration().check_valid_configuration()
    ensure(list(cs) == list(ref), f"order {list(cs)!r}, declared at once {list(ref)!r}")
    ensure(dict(cs.index_of) == dict(ref.index_of) and list(cs.at) == list(ref.at), "indices")
    ensure(cs == ref and ref == cs, "not equal to the space declared at once")
    ensure(cs.to_serialized_dict() == ref.to_serialized_dict(), "different documents")
    ensure([str(c) for c in cs.conditions] == [str(c) for c in ref.conditions], "conditions")
    ensure([str(c) for c in cs.forbidden_clauses] == [str(c) for c in ref.forbidden_clauses],
           "forbidden clauses")
    ensure(repr(cs) == repr(ref), "different texts")
    a, b = cs.get_default_configuration(), ref.get_default_configuration()
    ensure(a == b and np.array_equal(a.get_array(), b.get_array(), equal_nan=True), "default")
    for n in (2, 5):
        a, b = cs.sample_configuration(n), ref.sample_configuration(n)
        ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "samples of the initial seed")
    cs.seed(case["seed"])
    ref.seed(case["seed"])
    a, b = cs.sample_configuration(6), ref.sample_configuration(6)
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "samples")
    ensure(a == b, "samples are not equal")
    ensure(all(np.array_equal(x.get_array(), y.get_array(), equal_nan=True) for x, y in zip(a, b)),
           "encoded samples")
    for x in a:
        # edits use the same tables
        for n in list(x):
            v = ref[n].default_value
            y, z = Configuration(cs, vector=x.get_array().copy()), Configuration(ref, vector=x.get_array().copy())
            r = [raises(lambda: q.__setitem__(n, v), ValueError) for q in (y, z)]
            ensure(r[0] == r[1] and asg_of(y) == asg_of(z), f"{n}={v!r} edits differently")
    conforms(cs, spec)
    lab = kinds_label(spec)
    if len(case["batches"]) < 2 or not lab:
        return None
    return [*lab, f"{min(5, len(case['batches']))} batches"]


PARTS = [part("order", gen, check, 2500)]
