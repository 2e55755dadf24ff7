"""C35: everything that depends on the order of an ordinal follows its declared sequence."""
import copy
import json
import pickle

from vp.lib import *
from ConfigSpace import ConfigurationSpace
from ConfigSpace.util import generate_grid, get_one_exchange_neighbourhood

RULE = (
    "A case is an ordinal hyperparameter, mostly one whose declared order differs from the "
    "natural order of its values, with children that are active below, above or between its "
    "values. All order queries on the original and on copies, on the reloaded, the nested and "
    "the prior-free space are compared with positions in the declared list. Non-trivial: at "
    "least three values."
)
ASSUMPTIONS = []


def gen(d):
    n = names(d, 6)
    vals = values_list(d, 2, d.pick([4, 6, 9]), LIST_MIX)
    if d.chance(30):
        vals = d.shuffle(vals)
    h = {"k": "ord", "name": n[0], "sequence": vals}
    if d.chance(60):
        h["default"] = d.pick(vals)
    kids = []
    for i in range(d.int(1, 4)):
        op = d.pick(["lt", "gt", "between", "outside", "both"])
        a, b = d.int(0, len(vals) - 1), d.int(0, len(vals) - 1)
        kids.append([n[1 + i], op, a, b])
    return {"hp": h, "kids": kids, "nest": d.pick([":", ".", "/"]), "seed": d.seed(),
            "late": d.chance(50)}


def spec_of(case):
    h = case["hp"]
    s, p = h["sequence"], h["name"]
    conds = []
    for c, op, a, b in case["kids"]:
        lit = lambda o, i, c=c: {"op": o, "child": c, "parent": p, "value": s[i]}  # noqa: E731
        lo, up = min(a, b), max(a, b)
        if op in ("lt", "gt"):
            conds.append(lit(op, a))
        elif op == "between":
            conds.append({"op": "and", "child": c, "parts": [lit("gt", lo), lit("lt", up)]})
        elif op == "outside":
            conds.append({"op": "or", "child": c, "parts": [lit("lt", lo), lit("gt", up)]})
        else:  # below one, or exactly another
            conds.append({"op": "or", "child": c, "parts": [lit("lt", a), lit("eq", b)]})
    hps = [h] + [{"k": "const", "name": c, "value": 1} for c, *_ in case["kids"]]
    if case["late"]:
        hps = hps[1:] + hps[:1]
    return {"hps": hps, "conds": conds, "forbs": []}


def holds(kid, i):
    _, op, a, b = kid
    lo, up = min(a, b), max(a, b)
    return {"lt": i < a, "gt": i > a, "between": lo < i < up, "outside": i < lo or i > up,
            "both": i < a or i == b}[op]


def as_array(vals):
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    return out


def order_queries(x, vals, what):
    n = len(vals)
    say = lambda q, got: f"{what}: {q} gives {got!r} for {vals!r}"  # noqa: E731
    ensure(same_attr(list(x.sequence), vals), say("sequence", x.sequence))
    ensure(x.size == n, say("size", x.size))
    seq = [int(i) for i in x.get_seq_order()]
    ensure(seq == list(range(n)), say("get_seq_order", seq))
    for i, v in enumerate(vals):
        ensure(x.get_order(v) == i, say(f"get_order({v!r})", x.get_order(v)))
        for j in (i, np.int64(i)):
            ensure(same_attr(x.get_value(j), v), say(f"get_value({j!r})", x.get_value(j)))
        ensure(float(x.to_vector(v)) == i, say(f"to_vector({v!r})", x.to_vector(v)))
        ensure(same_attr(plain(x.to_value(float(i))), v), say(f"to_value({i})", x.to_value(float(i))))
        for j, w in enumerate(vals):
            got = x.check_order(v, w)
            ensure(bool(got) is (i < j), say(f"check_order({v!r}, {w!r})", got))
        near = [vals[j] for j in (i - 1, i + 1) if 0 <= j < n]
        got = [plain(y) for y in x.neighbors_values(v, n=n, seed=rs(1))]
        ensure(sorted(map(repr, got)) == sorted(map(repr, near)), say(f"neighbors_values({v!r})", got))
        ensure(x.get_num_neighbors(v) == len(near), say(f"get_num_neighbors({v!r})", x.get_num_neighbors(v)))
        ensure(x.has_neighbors() == (n > 1), say("has_neighbors", x.has_neighbors()))
    got = [float(y) for y in x.to_vector(as_array(vals))]
    ensure(got == list(range(n)), say("to_vector of all", got))
    got = [plain(y) for y in x.to_value(np.arange(n, dtype=float))]
    ensure(same_attr(got, vals), say("to_value of all", got))
    for j in (n, n + 3):
        ensure(raises(lambda: x.get_value(j), IndexError, ValueError), say(f"get_value({j})", "a value"))
    foreign = [v for v in ("zz-other", 987654) if v not in vals]
    for v in foreign:
        ensure(raises(lambda: x.get_order(v), ValueError), say(f"get_order({v!r})", "a position"))
        ensure(raises(lambda: x.check_order(v, vals[0]), ValueError), say(f"check_order({v!r}, ...)", "an order"))
        ensure(raises(lambda: x.check_order(vals[0], v), ValueError), say(f"check_order(..., {v!r})", "an order"))
    ensure(float(x.lower_vectorized) == 0 and float(x.upper_vectorized) == n - 1,
           say("encoded bounds", (x.lower_vectorized, x.upper_vectorized)))


def space_queries(cs, case, what, pre=""):
    """Children follow the position of the parent's value."""
    h = case["hp"]
    vals = h["sequence"]
    p = pre + h["name"]
    order_queries(cs[p], vals, what)
    kids = [[pre + k[0], *k[1:]] for k in case["kids"]]
    seen = []
    for i, v in enumerate(vals):
        asg = {p: v, **{k[0]: 1 for k in kids if holds(k, i)}}
        cfg = Configuration(cs, values=asg)
        cfg.check_valid_configuration()
        act = {a for a in cs.get_active_hyperparameters(cfg)}
        ensure(act == set(asg), f"{what}: active at {v!r} of {vals!r}: {act!r}, expected {set(asg)!r}")
        for k in kids:
            off = {a: b for a, b in asg.items() if a != k[0]} if k[0] in asg else {**asg, k[0]: 1}
            ensure(raises(lambda off=off: Configuration(cs, values=off), ValueError),
                   f"{what}: {off!r} accepted for {vals!r}")
            c = cs.parent_conditions_of[k[0]][0]
            for got in (c.satisfied_by_value(asg), c.satisfied_by_vector(cfg.get_array())):
                ensure(bool(got) is holds(k, i), f"{what}: {c} at {v!r} of {vals!r} gives {got!r}")
        seen.append(cfg)
    arr = np.stack([c.get_array() for c in seen]).T
    for k in kids:
        c = cs.parent_conditions_of[k[0]][0]
        got = [bool(b) for b in c.satisfied_by_vector_array(arr)]
        ensure(got == [holds(k, i) for i in range(len(vals))], f"{what}: {c} over {vals!r} gives {got!r}")
    cs.seed(case["seed"])
    for cfg in cs.sample_configuration(12):
        i = [repr(v) for v in vals].index(repr(plain(cfg[p])))
        want = {p, *(k[0] for k in kids if holds(k, i))}
        ensure(set(cfg) == want, f"{what}: drawn {dict(cfg)!r}, expected {want!r}")
    grid = [dict(g) for g in generate_grid(cs)]
    ensure(len(grid) == len(vals), f"{what}: {len(grid)} grid points for {vals!r}")
    for i, cfg in enumerate(seen):
        got = [c for c in get_one_exchange_neighbourhood(cfg, seed=case["seed"])]
        near = {j for j in (i - 1, i + 1) if 0 <= j < len(vals)}
        at = sorted([repr(v) for v in vals].index(repr(plain(c[p]))) for c in got)
        ensure(at == sorted(near), f"{what}: one step from {i} leads to {at} in {vals!r}")


def check(case):
    h = case["hp"]
    vals = h["sequence"]
    x = build_hp(h)
    order_queries(x, vals, "hyperparameter")
    ensure(same_attr(x.default_value, h.get("default", vals[0])), f"default {x.default_value!r} of {h!r}")
    for what, y in (("copy", copy.copy(x)), ("deep copy", copy.deepcopy(x)),
                    ("pickle", pickle.loads(pickle.dumps(x)))):
        order_queries(y, vals, what)
    if len(vals) > 1:
        other = build_hp(dict(h, sequence=vals[::-1], default=x.default_value))
        ensure(x != other and not x == other, f"{x!r} equals the reversed {other!r}")

    spec = spec_of(case)
    cs = build_space(spec)
    space_queries(cs, case, "space")
    space_queries(copy.deepcopy(cs), case, "deep copy")
    space_queries(ConfigurationSpace.from_serialized_dict(json.loads(json.dumps(cs.to_serialized_dict()))),
                  case, "reloaded")
    space_queries(cs.remove_hyperparameter_priors(), case, "without priors")
    outer = ConfigurationSpace()
    outer.add_configuration_space("in", cs, delimiter=case["nest"])
    space_queries(outer, case, "nested", f"in{case['nest']}")
    if len(vals) < 3:
        return None
    labels = [k[1] for k in case["kids"]]
    try:
        labels.append("natural order" if sorted(vals) == vals else "own order")
    except TypeError:
        labels.append("not comparable")
    return labels


PARTS = [part("ordinal", gen, check, 2600)]
