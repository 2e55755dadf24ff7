"""C21: structure queries report exactly the declared graph."""
import warnings

from vp.lib import *
from vp.props import c20
from ConfigSpace import ConfigurationSpace

RULE = (
    "A case is a space and an admissible sequence of batches in which its hyperparameters and "
    "clauses are added. After every batch all structure queries (current and older spellings) "
    "are compared with the graph computed from what has been added so far. Non-trivial: at "
    "least one condition."
)
ASSUMPTIONS = ["the order inside the reported collections is left open, except that parents come first"]


def sorted_names(hps):
    out = [h.name for h in hps]
    ensure(len(set(out)) == len(out), f"duplicates in {out!r}")
    return sorted(out)


def same_clauses(got, want, what):
    got, want = list(got), list(want)
    ensure(len(got) == len(want), f"{what}: {got!r}, expected {want!r}")
    for w in want:
        ensure(w in got, f"{what}: {w!r} missing in {got!r}")


def lit_facts(x, c):
    ensure(type(x) is (COND[c["op"]] if c["op"] in COND else InCondition), f"{x!r} is a {type(x)}")
    ensure(x.child.name == c["child"] and x.parent.name == c["parent"], f"{x!r} for {c!r}")
    if c["op"] == "in":
        ensure(same_attr(list(x.values), list(c["values"])), f"{x!r} for {c!r}")
    else:
        ensure(same_attr(x.value, c["value"]), f"{x!r} for {c!r}")


def cond_facts(x, c, cs):
    """The condition object reports its own structure."""
    ensure(x.child is cs[c["child"]] or x.child == cs[c["child"]], f"child of {x!r}")
    if "parts" in c:
        ensure(type(x) is (AndConjunction if c["op"] == "and" else OrConjunction), f"{x!r} for {c!r}")
        ensure(len(x.components) == len(c["parts"]), f"components of {x!r}")
        for y, p in zip(x.components, c["parts"]):
            cond_facts(y, p, cs)
        ensure({p.name for p in x.parents} == set(cond_parents(c)), f"parents of {x!r}")
        lits = literals(c)
        for y in x.dlcs:
            ensure(any(y == build_cond(z, cs) for z in lits), f"{y!r} is not in {c!r}")
        for z in lits:
            ensure(build_cond(z, cs) in x.dlcs, f"{z!r} is not reported by {x!r}")
        i = {n: k for k, n in enumerate(cs)}
        ensure(int(x.child_vector_id) == i[c["child"]], f"child index of {x!r}")
        ensure({int(v) for v in x.parent_vector_ids} == {i[p] for p in cond_parents(c)},
               f"parent indices of {x!r}")
    else:
        lit_facts(x, c)
        i = {n: k for k, n in enumerate(cs)}
        ensure(int(x.child_vector_id) == i[c["child"]], f"child index of {x!r}")
        ensure(int(x.parent_vector_id) == i[c["parent"]], f"parent index of {x!r}")


def facts(cs, hps, conds, forbs):
    """All queries against the declared graph."""
    names = [h["name"] for h in hps]
    order = list(cs)
    ensure(sorted(order) == sorted(names), f"names {order!r}, expected {names!r}")
    ensure(list(cs.keys()) == order and len(cs) == len(names), "keys or length")
    ensure([n for n, _ in cs.items()] == order, "items")
    ensure([h.name for h in cs.values()] == order, "values")
    ensure(list(cs.at) == order, f"at {cs.at!r}")
    ensure(dict(cs.index_of) == {n: i for i, n in enumerate(order)}, f"index_of {cs.index_of!r}")
    for h in hps:
        ensure(h["name"] in cs, f"{h['name']} is not in the space")
        hp_conforms(cs[h["name"]], h)
        ensure(cs.get(h["name"]) is cs[h["name"]], "get")
    by = {c["child"]: c for c in conds}
    built = {c["child"]: build_cond(c, cs) for c in conds}
    ensure(sorted(cs.conditional_hyperparameters) == sorted(by), "conditional hyperparameters")
    ensure(sorted(cs.unconditional_hyperparameters) == sorted(set(names) - set(by)),
           "unconditional hyperparameters")
    same_clauses(cs.conditions, built.values(), "conditions")
    for x in cs.conditions:
        cond_facts(x, by[x.child.name], cs)
    same_clauses(cs.forbidden_clauses, [build_forb(f, cs) for f in forbs], "forbidden clauses")
    parents = {n: (sorted(cond_parents(by[n])) if n in by else []) for n in names}
    for n in names:
        ensure(sorted_names(cs.parents_of[n]) == parents[n], f"parents of {n}: {cs.parents_of[n]!r}")
        kids = sorted(c for c in names if n in parents[c])
        ensure(sorted_names(cs.children_of[n]) == kids, f"children of {n}: {cs.children_of[n]!r}")
        same_clauses(cs.parent_conditions_of[n], [built[n]] if n in by else [], f"conditions on {n}")
        same_clauses(cs.child_conditions_of[n], [built[c] for c in kids], f"conditions by {n}")
        for x in (*cs.parents_of[n], *cs.children_of[n]):
            ensure(x == cs[x.name], f"{x!r} is not the hyperparameter of the space")
    pos = dict(cs.index_of)
    for n in names:
        ensure(all(pos[p] < pos[n] for p in parents[n]), f"{n} before a parent in {order!r}")


def old(cs):
    """The older spellings say the same."""
    for n in cs:
        h = cs[n]
        ensure(cs.get_hyperparameter(n) is h, "get_hyperparameter")
        for arg in (n, h):
            ensure(cs.get_children_of(arg) == cs.children_of[n], "get_children_of")
            ensure(cs.get_parents_of(arg) == cs.parents_of[n], "get_parents_of")
            ensure(cs.get_child_conditions_of(arg) == cs.child_conditions_of[n], "get_child_conditions_of")
            ensure(cs.get_parent_conditions_of(arg) == cs.parent_conditions_of[n], "get_parent_conditions_of")
        i = cs.get_idx_by_hyperparameter_name(n)
        ensure(i == cs.index_of[n] and cs.get_hyperparameter_by_idx(i) == n, "index by name")
    ensure(cs.get_hyperparameters() == list(cs.values()), "get_hyperparameters")
    ensure(cs.get_hyperparameters_dict() == dict(cs), "get_hyperparameters_dict")
    ensure(cs.get_hyperparameter_names() == list(cs), "get_hyperparameter_names")
    ensure(list(cs.get_conditions()) == list(cs.conditions), "get_conditions")
    ensure(list(cs.get_forbiddens()) == list(cs.forbidden_clauses), "get_forbiddens")
    ensure(list(cs.get_all_conditional_hyperparameters()) == list(cs.conditional_hyperparameters), "conditional")
    ensure(list(cs.get_all_unconditional_hyperparameters()) == list(cs.unconditional_hyperparameters),
           "unconditional")


def unknown(cs, name):
    if name in list(cs):
        return
    ensure(name not in cs, f"{name!r} is in the space")
    ensure(cs.get(name) is None, f"get({name!r})")
    queries = [
        lambda: cs[name], lambda: cs.index_of[name], lambda: cs.children_of[name],
        lambda: cs.parents_of[name], lambda: cs.child_conditions_of[name],
        lambda: cs.parent_conditions_of[name], lambda: cs.get_children_of(name),
        lambda: cs.get_hyperparameter(name), lambda: cs.get_idx_by_hyperparameter_name(name),
    ]
    for i, q in enumerate(queries):
        ensure(raises(q, KeyError, ValueError), f"query {i} about the unknown {name!r} answered")
    ensure(raises(lambda: cs.at[len(cs)], IndexError, KeyError), "index beyond the end answered")


def gen(d):
    c = c20.gen(d)
    return {"spec": c["spec"], "batches": c["batches"], "unknown": d.pick(["", "nope", "A", "a ", "x:y"])}


def check(case):
    spec = case["spec"]
    hps = {h["name"]: build_hp(h) for h in spec["hps"]}
    cs = ConfigurationSpace(seed=1)
    got = {"h": [], "c": [], "f": []}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for form, batch in case["batches"]:
            items = []
            for kind, i in batch:
                s = spec[{"h": "hps", "c": "conds", "f": "forbs"}[kind]][i]
                got[kind].append(s)
                items.append(hps[s["name"]] if kind == "h" else
                             build_cond(s, hps) if kind == "c" else build_forb(s, hps))
            if form == "old":
                for (kind, _), x in zip(batch, items):
                    {"h": cs.add_hyperparameters, "c": cs.add_conditions,
                     "f": cs.add_forbidden_clauses}[kind]([x])
            else:
                cs.add(items)
            facts(cs, got["h"], got["c"], got["f"])
        for n, h in hps.items():
            ensure(cs[n] == h, f"{n} is not what was added")
        old(cs)
        unknown(cs, case["unknown"])
        unknown(cs, list(cs)[0] + "_")
    if not spec["conds"]:
        return None
    m = Model(spec)
    lab = kinds_label(spec)
    if any(len(cond_parents(c)) > 1 for c in spec["conds"]):
        lab.append("several parents")
    if any(len(v) > 1 for v in m.children.values()):
        lab.append("several children")
    return lab


PARTS = [part("graph", gen, check, 2500)]
