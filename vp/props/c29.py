"""C29: equality of spaces, hyperparameters and clauses matches their content."""
import copy

from vp.lib import *
from vp.spec import cond_parents

RULE = (
    "A case is a description of a hyperparameter, a clause or a whole space, and one change of "
    "it: either one that matters (a bound, the scale, a prior parameter, a choice, a weight, the "
    "default, the order of an ordinal, an operator, a value, a part, a clause more or less, a "
    "name; other pairs of the same literals) or one that does not (order of choices or parts, seed). Objects built from them are "
    "compared both ways. Non-trivial: every case with a change."
)
ASSUMPTIONS = [
    "meta data of hyperparameters is not part of the comparison",
    "weights that are proportional, and membership values listed in another order, are not judged",
    "spaces whose clauses are equal but list their parts in another order are not judged",
]


def compare(a, b, equal, what):
    for x, y in ((a, b), (b, a)):
        ensure(bool(x == y) is equal, f"{what}: {x!r} and {y!r} are {'un' if equal else ''}equal")
        ensure(bool(x != y) is not equal, f"{what}: {x!r} != {y!r} contradicts ==")
    if equal:
        try:
            h = hash(a), hash(b)
        except TypeError:
            return
        ensure(h[0] == h[1], f"{what}: equal but with different hashes")


def same_twice(build, what):
    a, b = build(), build()
    compare(a, b, True, what)
    compare(a, a, True, what)
    ensure(not a == 3 and a != None, f"{what}: equal to something else")  # noqa: E711
    return a


# ---------------------------------------------------------------- hyperparameters
def change_hp(d, h):
    """(what, other description, equal)"""
    k = h["k"]
    o = copy.deepcopy(h)
    if k in NUMS:
        lo, up = h["lower"], h["upper"]
        cands = ["name", "kind", "default", "upper", "lower"]
        if lo > 0:
            cands.append("log")
        cands += [a for a in ("mu", "sigma", "alpha", "beta") if a in h] * 2
        c = d.pick(cands)
        if c == "name":
            o["name"] = h["name"] + "2"
        elif c == "kind":
            for a in ("mu", "sigma", "alpha", "beta"):
                o.pop(a, None)
            o["k"] = d.pick([x for x in NUMS if x != k and (x in INTS) == (k in INTS)])
            if o["k"][0] == "n":
                o["mu"], o["sigma"] = float(h["default"]), float(up - lo)
                if h["log"] and abs(lo + o["sigma"] - 1) < 0.05:
                    o["sigma"] *= 2
            elif o["k"][0] == "b":
                o["alpha"], o["beta"] = 2.0, 3.0
        elif c == "default":
            lat = [v for v in lattice(h) if v != h["default"]]
            if not lat:
                return None
            o["default"] = d.pick(lat)
        elif c == "upper":
            o["upper"] = up + d.int(1, 3) if k in INTS else round(up + (up - lo), 9)
        elif c == "lower":
            v = lo - d.int(1, 3) if k in INTS else round(lo - (up - lo), 9)
            o["lower"] = v if not h["log"] or v > 0 else lo
            if o["lower"] == lo:
                return None
        elif c == "log":
            o["log"] = not h["log"]
            if k in ("nf", "ni") and (abs(lo + h["sigma"] - 1) < 0.05 or h["mu"] <= 0):
                return None
        elif c == "mu":
            o["mu"] = h["mu"] + (up - lo) / 4 if not h["log"] else h["mu"] * 1.5
        elif c == "sigma":
            o["sigma"] = h["sigma"] * 1.5
            if h["log"] and abs(lo + o["sigma"] - 1) < 0.05:
                return None
        else:
            o[c] = h[c] + 1.0
        return c, o, False
    if k == "const":
        c = d.pick(["name", "value"])
        if c == "name":
            o["name"] = h["name"] + "2"
        else:
            o["value"] = d.pick([v for v in ("other", 99, -0.25) if v != h["value"]])
        return c, o, False
    vals = "choices" if k == "cat" else "sequence"
    cands = ["name", "add", "drop", "replace", "permute", "permute", "default"]
    if k == "cat":
        cands += ["weights", "kind"]
    c = d.pick(cands)
    n = len(h[vals])
    o["default"] = h["default"] = default_of(h)
    new = d.pick([v for v in ("brand new", 1234, [7, 7]) if all(v != x for x in h[vals])])
    if c == "name":
        o["name"] = h["name"] + "2"
    elif c == "kind":
        o = {"k": "ord", "name": h["name"], "sequence": h["choices"], "default": h["default"]}
    elif c == "add":
        i = d.int(0, n)
        o[vals].insert(i, new)
        if h.get("weights"):
            o["weights"].insert(i, 1.0)
    elif c in ("drop", "replace"):
        i = d.pick([i for i in range(n) if h[vals][i] != h["default"]] or [None])
        if i is None:
            return None
        if c == "drop":
            del o[vals][i]
            if h.get("weights"):
                del o["weights"][i]
                if not any(o["weights"]):
                    return None
        else:
            o[vals][i] = new
    elif c == "permute":
        perm = d.shuffle(range(n))
        o[vals] = [h[vals][i] for i in perm]
        if h.get("weights"):
            o["weights"] = [h["weights"][i] for i in perm]
        if k == "ord":
            return c, o, perm == sorted(perm)
        return c, o, True
    elif c == "default":
        other = [v for v in h[vals] if v != h["default"]]
        if not other:
            return None
        o["default"] = d.pick(other)
    elif c == "weights":
        w = h.get("weights") or [1.0] * n
        i = d.int(0, n - 1)
        o["weights"] = [x + (1.0 if j == i else 0.0) for j, x in enumerate(w)]
        if n == 1 or sum(1 for x in w if x) == (1 if w[i] else 0):
            return None  # proportional
    return c, o, False


def gen_hp(d):
    h = hp(d, d.pick(["x", "y z"]), HP_KINDS, small=d.chance(40), mixes=LIST_MIX)
    if h["k"] == "cat" and d.chance(40):
        h["weights"] = [d.pick([0.1, 0.2, 0.3, 0.7, 1.1, 3.0]) for _ in h["choices"]]
    return {"h": h, "change": change_hp(d, h), "used": d.chance(50)}


def check_hp(case):
    h = case["h"]
    a = same_twice(lambda: build_hp(h), h["k"])
    if case["used"]:  # what has been computed meanwhile does not matter
        a.pdf_values(lattice(h)[:3])
        a.get_max_density()
        a.sample_value(2, seed=rs(1))
        compare(a, build_hp(h), True, h["k"])
    if case["change"] is None:
        return None
    what, o, equal = case["change"]
    b = same_twice(lambda: build_hp(o), o["k"])
    compare(a, b, equal, f"{h['k']} with another {what}")
    return [f"{h['k']}.{what}"]


# ------------------------------------------------------------------------ clauses
def canon(c):
    if "parts" in c:
        return (c["op"], c.get("child"), frozenset(canon(p) for p in c["parts"]))
    return repr(sorted((k, v) for k, v in c.items()))


def multi(c):
    if "parts" in c:
        return [c["op"], c.get("child"), sorted((multi(p) for p in c["parts"]), key=repr)]
    return repr(sorted((k, v) for k, v in c.items()))


def reorder(d, c):
    o = copy.deepcopy(c)
    if "parts" in o:
        o["parts"] = [reorder(d, p) for p in d.shuffle(o["parts"])]
    return o


def other_value(d, h, v):
    lat = [x for x in lattice(h) if x != v]
    return d.pick(lat) if lat else v


def change_cond(d, c, hps):
    o = copy.deepcopy(c)
    if "parts" in c:
        w = d.pick(["order", "op", "part", "drop", "add", "repeat"])
        if w == "repeat":
            i, j = d.subset(range(len(o["parts"])), 2, 2)
            o["parts"][i] = copy.deepcopy(o["parts"][j])
            return w, o
        if w == "order":
            return w, reorder(d, o)
        if w == "op":
            o["op"] = "or" if c["op"] == "and" else "and"
        elif w == "drop" and len(c["parts"]) > 2:
            del o["parts"][d.int(0, len(o["parts"]) - 1)]
        elif w == "add":
            o["parts"].append(literal(d, c["child"], d.pick(list(hps.values()))))
        else:
            i = d.int(0, len(o["parts"]) - 1)
            w, o["parts"][i] = change_cond(d, o["parts"][i], hps)
        return w, o
    w = d.pick(["value", "op", "parent"])
    h = hps[c["parent"]]
    if w == "value" and c["op"] == "in":
        o["values"] = d.subset(lattice(h), 1, 3)
        if sorted(map(repr, o["values"])) == sorted(map(repr, c["values"])):
            o["values"] = list(c["values"])
    elif w == "value":
        o["value"] = other_value(d, h, c["value"])
    elif w == "op":
        new = literal(d, c["child"], h)
        if new["op"] == c["op"]:
            new = o
        elif "value" in new and "value" in c:
            new["value"] = c["value"]
        o = new
    else:
        o["parent"] = c["parent"] + " twin"
    return w, o


def with_twins(hps):
    """Namesakes with the same content apart from the name."""
    out = {h["name"]: h for h in hps}
    for h in hps:
        n = h["name"] + " twin"
        out[n] = {**h, "name": n}
    return out


def gen_cond(d):
    n = d.int(2, 4)
    nm = names(d, n)
    hps = [hp(d, x, ALL_KINDS, small=True, mixes=ALL_MIX) for x in nm]
    c = condition(d, hps[0]["name"], hps[1:], nest=2, pconj=60)
    ch = change_cond(d, c, {h["name"]: h for h in hps[1:]})
    if d.chance(10):
        ch = ["child", rechild(c, hps[0]["name"] + " twin")]
    elif d.chance(15):
        ch = ["order", reorder(d, c)]
    inner = None
    if d.chance(20):
        # the same clause about a parent or child with another content
        i = d.pick([0, *range(1, n)])
        if i == 0 or hps[i]["name"] in cond_parents(c):
            x = change_hp(d, copy.deepcopy(hps[i]))
            if x is not None and x[0] in ("upper", "weights", "default", "mu", "sigma", "add"):
                inner = [hps[i]["name"], x[1]]
    return {"hps": hps, "c": c, "change": ch, "inner": inner}


def relation_of(a, b):
    """True: equal, False: unequal, None: not judged (they differ in repetitions only)."""
    if multi(a) == multi(b):
        return True
    if canon(a) != canon(b):
        return False
    return None


def check_cond(case):
    table = with_twins(case["hps"])
    what, o = case["change"]

    def build(c, repl=None):
        t = {n: build_hp(h) for n, h in table.items()}
        if repl:
            t[repl[0]] = build_hp(repl[1])
        return build_cond(c, t)

    a = same_twice(lambda: build(case["c"]), "condition")
    labels = []
    eq = relation_of(case["c"], o)
    if eq is not None:
        b = same_twice(lambda: build(o), "condition")
        compare(a, b, eq, f"condition, changed {what}")
        labels.append(f"{case['c']['op']}.{what}.{'equal' if eq else 'unequal'}")
    if case["inner"]:
        compare(a, build(case["c"], case["inner"]), False, "condition about a changed hyperparameter")
        labels.append("inner")
    return labels or None


def flat(c):
    if "parts" in c:
        return [x for p in c["parts"] for x in flat(p)]
    return [c]


def change_forb(d, f, hps):
    o = copy.deepcopy(f)
    if "parts" in f:
        w = d.pick(["order", "part", "part", "add", "drop", "repeat"])
        if w == "repeat":
            i, j = d.subset(range(len(o["parts"])), 2, 2)
            o["parts"][i] = copy.deepcopy(o["parts"][j])
            return w, o
        if w == "order":
            return w, reorder(d, o)
        if w == "drop" and len(f["parts"]) > 2:
            del o["parts"][d.int(0, len(f["parts"]) - 1)]
        elif w == "add":
            o["parts"].append(forb_literal(d, d.pick(list(hps.values()))))
        else:
            i = d.int(0, len(f["parts"]) - 1)
            w, o["parts"][i] = change_forb(d, o["parts"][i], hps)
        return w, o
    if "left" in f:
        w = d.pick(["op", "sides", "left", "right"])
        if w in ("left", "right"):
            o[w] += " twin"
        elif w == "op":
            o["op"] = d.pick([x for x in ("rlt", "rgt", "req") if x != f["op"]])
        else:
            o["left"], o["right"] = f["right"], f["left"]
        return w, o
    w = d.pick(["value", "op", "hp"])
    h = hps[f["hp"]]
    if w == "hp":
        o["hp"] += " twin"
    elif w == "op":
        if f["op"] == "eq":
            o = {"op": "in", "hp": f["hp"], "values": [f["value"]]}
        else:
            o = {"op": "eq", "hp": f["hp"], "value": f["values"][0]}
    elif f["op"] == "eq":
        o["value"] = other_value(d, h, f["value"])
    else:
        o["values"] = d.subset(lattice(h), 1, 3)
        if sorted(map(repr, o["values"])) == sorted(map(repr, f["values"])):
            o["values"] = list(f["values"])
    return w, o


def gen_forb(d):
    nm = names(d, d.int(2, 4))
    hps = [hp(d, x, ALL_KINDS, small=True, mixes=ALL_MIX) for x in nm]
    f = forbidden(d, hps)
    inner = None
    if d.chance(25):  # the same clause about a hyperparameter with another content
        h = d.pick([h for h in hps if h["name"] in forb_names(f)])
        x = change_hp(d, copy.deepcopy(h))
        if x is not None and x[0] in ("upper", "weights", "default", "mu", "sigma", "add"):
            inner = [h["name"], x[1]]
    return {"hps": hps, "f": f, "change": change_forb(d, f, {h["name"]: h for h in hps}),
            "inner": inner}


def check_forb(case):
    table = with_twins(case["hps"])
    what, o = case["change"]

    def build(f, repl=None):
        t = {n: build_hp(h) for n, h in table.items()}
        if repl:
            t[repl[0]] = build_hp(repl[1])
        return build_forb(f, t)

    a = same_twice(lambda: build(case["f"]), "forbidden clause")
    if case["inner"]:
        compare(a, build(case["f"], case["inner"]), False, "clause about a changed hyperparameter")
    eq = relation_of(case["f"], o)
    if eq is None:
        return None
    b = same_twice(lambda: build(o), "forbidden clause")
    compare(a, b, eq, f"forbidden clause, changed {what}")
    return [f"{case['f']['op']}.{what}.{'equal' if eq else 'unequal'}"]


# ------------------------------------------------------------------------- spaces
def gen_space(d):
    spec = space(d, 1, 6, small=d.chance(60), mixes=LIST_MIX, forbs=(0, 3), pcond=60, meta=d.chance(30))
    o = copy.deepcopy(spec)
    hps = {h["name"]: h for h in spec["hps"]}
    w = d.pick(["hp", "hp", "cond", "cond", "forb", "forb", "add", "drop cond", "drop forb", "name",
                "meta", "seed"])
    equal = False
    if w == "hp":
        i = d.int(0, len(o["hps"]) - 1)
        x = change_hp(d, o["hps"][i])
        if x is None or x[0] in ("name", "kind", "drop", "replace", "lower"):
            w = "add"
        else:
            o["hps"][i] = x[1]
            equal = x[2]
            w = "hp." + x[0]
            if x[0] == "permute" and x[1]["k"] == "ord" and o["conds"]:
                equal = None if x[2] else False
    if w == "cond" and o["conds"]:
        i = d.int(0, len(o["conds"]) - 1)
        kind, c = change_cond(d, o["conds"][i], hps)
        equal = relation_of(o["conds"][i], c)
        if equal or "twin" in repr(c) or len(set(map(repr, flat(c)))) < len(flat(c)):
            equal = None
        o["conds"][i] = c
    elif w == "forb" and o["forbs"]:
        i = d.int(0, len(o["forbs"]) - 1)
        kind, f = change_forb(d, o["forbs"][i], hps)
        equal = relation_of(o["forbs"][i], f)
        if equal or "twin" in repr(f) or f in o["forbs"] or len(set(map(repr, flat(f)))) < len(flat(f)):
            equal = None
        o["forbs"][i] = f
    elif w == "drop cond" and o["conds"]:
        del o["conds"][d.int(0, len(o["conds"]) - 1)]
    elif w == "drop forb" and o["forbs"]:
        del o["forbs"][d.int(0, len(o["forbs"]) - 1)]
    elif w == "name":
        o["name"] = "another"
    elif w == "meta":
        o["meta"] = {"another": 1}
    elif w == "seed":
        o["seed"] = spec["seed"] + 1
        equal = True
    elif not w.startswith("hp"):
        w = "add"
        o["hps"].insert(d.int(0, len(o["hps"])), {"k": "const", "name": "brand new", "value": 1})
    for c in spec["conds"] + spec["forbs"]:
        if len(set(map(repr, flat(c)))) < len(flat(c)):
            equal = None
    return {"spec": spec, "other": o, "what": w, "equal": equal}


def check_space(case):
    a = same_twice(lambda: build_space(case["spec"]), "space")
    if case["equal"] is None:
        return None
    try:
        b = build_space(case["other"])
    except ValueError:
        raise Skip  # the changed default configuration is forbidden
    compare(a, b, case["equal"], f"space with another {case['what']}")
    return [case["what"]]


def gen_pool(d):
    """Two selections from one pool of clauses about the same few hyperparameters."""
    spec = space(d, 2, 5, small=True, mixes=ALL_MIX, forbs=None, pcond=60)
    m = Model(spec)
    dflt = m.prune(m.defaults())
    pool = [f for f in family(d, spec["hps"]) + family(d, spec["hps"])
            if m.forb(f, dflt) is False and len({p["hp"] for p in f["parts"]}) == len(f["parts"])]
    uniq = []
    for f in pool:
        if all(multi(f) != multi(g) for g in uniq):
            uniq.append(f)
    uniq += [f for f in (relation(d, spec["hps"]) for _ in range(d.int(0, 2)))
             if f is not None and f not in uniq and m.forb(f, dflt) is False]
    if not uniq:
        uniq = [{"op": "and", "parts": []}]
    a = d.subset(uniq, 1, 5)
    b = list(a)
    for _ in range(d.int(1, 2)):
        f = d.pick(uniq)
        if f in b:
            b[b.index(f)] = d.pick(uniq)
        else:
            b[d.int(0, len(b) - 1)] = f
    b = [f for i, f in enumerate(b) if f not in b[:i]]
    if d.chance(30):
        b = d.shuffle(b)
    conds = spec["conds"]
    return {"spec": spec, "a": a, "b": b, "order": d.shuffle(range(len(conds)))}


def check_pool(case):
    spec, a, b = case["spec"], case["a"], case["b"]
    if not all(f.get("parts", True) for f in a):
        raise Skip
    for c in spec["conds"]:
        if len(set(map(repr, flat(c)))) < len(flat(c)):
            raise Skip
    x = same_twice(lambda: build_space({**spec, "forbs": a}), "space")
    y = build_space({**spec, "forbs": b, "conds": [spec["conds"][i] for i in case["order"]]})
    same = sorted(map(repr, a)) == sorted(map(repr, b))
    compare(x, y, same, f"spaces with clauses {a!r} and {b!r}")
    lits = lambda fs: {repr(x) for f in fs for x in flat(f)}  # noqa: E731
    return ["same" if same else "other pairs" if lits(a) == lits(b) else "other literals"]


PARTS = [part("hyperparameters", gen_hp, check_hp, 4000), part("conditions", gen_cond, check_cond, 3000),
         part("forbidden", gen_forb, check_forb, 3000), part("spaces", gen_space, check_space, 2500),
         part("pool", gen_pool, check_pool, 1500)]
