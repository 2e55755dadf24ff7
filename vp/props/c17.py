"""C17: the old PCS text format preserves the meaning of a space."""
from vp.lib import *
from vp.props.pcslib import (
    DAMAGE, PCS_NAMES, check_damaged, check_hand_written, check_roundtrip, layout, pcs_hp,
)
from ConfigSpace.read_and_write import pcs

RULE = (
    "A case is a space of hyperparameters whose names and choices are words of the format, "
    "with conditions 'one of these choices' (or conjunctions of them) and conjunctions of "
    "forbidden values; it is written and read. Part 'refused' adds one feature the format "
    "lacks. Parts 'hand-written' and 'damaged' read text the check lays out itself (blanks, "
    "quotes, comments, order of lines, spellings of numbers), without and with one line that "
    "cannot be meant. Non-trivial: a condition or forbidden clause (or any case of 'refused')."
)
ASSUMPTIONS = [
    "conditions are on hyperparameters with choices (the format defines no others)",
    "priors other than uniform are documented to be written as uniform; meta data is not part "
    "of the format",
]
KINDS = [("cat", 6), ("ui", 3), ("uf", 3), ("const", 1), ("ni", 1), ("bf", 1)]


def base(d, lo, hi, forbs=3):
    nm = names(d, d.int(lo, hi), PCS_NAMES)
    hps = [pcs_hp(d, n, KINDS, d.chance(60)) for n in nm]
    spec = {"hps": hps, "conds": [], "forbs": [], "seed": d.seed()}
    depth = {}
    for i, h in enumerate(hps):
        depth[h["name"]] = 0
        cand = [p for p in hps[:i] if p["k"] in ("cat", "const") and depth[p["name"]] < 5]
        if cand and d.chance(65):
            c = condition(d, h["name"], cand, ops=("eq", "in"), conj=("and",), nest=1)
            spec["conds"].append(c)
            depth[h["name"]] = 1 + max(depth[p] for p in cond_parents(c))
    spec["hps"] = d.shuffle(hps) if d.chance(50) else hps
    spec["forbs"] = forbiddens(d, spec, 0, forbs, rel=False)
    return spec


def gen(d):
    spec = base(d, 1, 7)
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 4))]}


def check(case):
    return check_roundtrip(pcs, case)


BAD = ["weights", "relation", "ordinal", "or", "ne", "lt", "name", "choice", "constant"]


def gen_refused(d):
    return {"spec": base(d, 1, 4, 1), "bad": d.pick(BAD),
            "char": d.pick(["#", " ", ",", "|", "{", "]", "=", "'"]), "op": d.pick(["rlt", "rgt"])}


def check_refused(case):
    spec = case["spec"]
    bad = case["bad"]
    forbs, conds = [], []
    x = {"k": "cat", "name": "xx", "choices": ["p", "q"]}
    i, j = ({"k": "ui", "name": n, "lower": 0, "upper": 5, "log": False, "default": 2} for n in ("ii", "jj"))
    extra = [x]
    if bad == "weights":
        extra = [dict(x, weights=[0.25, 0.75])]
    elif bad == "relation":
        extra, forbs = [i, j], [{"op": case["op"], "left": "ii", "right": "jj"}]
    elif bad == "ordinal":
        extra = [{"k": "ord", "name": "oo", "sequence": ["p", "q"]}]
    elif bad == "or":
        extra = [x, dict(x, name="yy"), i]
        conds = [{"op": "or", "child": "ii", "parts": [
            {"op": "eq", "child": "ii", "parent": p, "value": "p"} for p in ("xx", "yy")]}]
    elif bad == "ne":
        extra, conds = [x, i], [{"op": "ne", "child": "ii", "parent": "xx", "value": "p"}]
    elif bad == "lt":
        extra, conds = [x, i], [{"op": "lt", "child": "xx", "parent": "ii", "value": 3}]
    elif bad == "name":
        extra = [dict(x, name="z" + case["char"] + "z")]
    elif bad == "choice":
        extra = [dict(x, choices=["p", "q" + case["char"] + "r"])]
    elif bad == "constant":
        extra = [{"k": "const", "name": "xx", "value": "q" + case["char"] + "r"}]
    spec = dict(spec, hps=spec["hps"] + extra, forbs=spec["forbs"] + forbs, conds=spec["conds"] + conds)
    cs = build_space(spec)
    try:
        text = pcs.write(cs)
    except Exception:
        return [bad]
    raise Violation(f"{bad}: written as {text!r}")


def gen_hand(d):
    spec = base(d, 1, 6)
    return {"spec": spec, **layout(d), "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 4))]}


def check_hand(case):
    return check_hand_written(pcs, case, True)


def gen_damaged(d):
    return {"spec": base(d, 1, 3), **layout(d), "bad": d.pick(DAMAGE), "at": d.int(0, 20)}


def check_damage(case):
    return check_damaged(pcs, case, True)


PARTS = [part("hand-written", gen_hand, check_hand, 800), part("damaged", gen_damaged, check_damage, 300),
         part("roundtrip", gen, check, 2000), part("refused", gen_refused, check_refused, 400)]
