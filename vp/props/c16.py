"""C16: the new PCS text format preserves the meaning of a space."""
from vp.lib import *
from vp.props.pcslib import (
    DAMAGE, PCS_NAMES, check_damaged, check_hand_written, check_roundtrip, layout, pcs_hp, text_asg, textual,
)
from ConfigSpace.read_and_write import pcs_new

RULE = (
    "A case is a space of hyperparameters whose names and choices are words of the format, "
    "with single conditions or one level of conjunction and conjunctions of forbidden values; "
    "it is written and read. Part 'text' reads generated text that mixes both connectives. "
    "Part 'refused' adds one feature the format lacks. Parts 'hand-written' and 'damaged' read "
    "text the check lays out itself (blanks, quotes, comments, order of lines, spellings of "
    "numbers), without and with one line that cannot be meant. Non-trivial: a condition or forbidden "
    "clause (or any case of 'refused')."
)
ASSUMPTIONS = [
    "priors other than uniform are documented to be written as uniform; meta data is not part "
    "of the format",
    "choices whose texts coincide are not generated",
]
KINDS = [("cat", 5), ("ui", 3), ("uf", 3), ("ord", 3), ("const", 1), ("ni", 1), ("bf", 1)]


def base(d, lo, hi, forbs=3, conj=True):
    nm = names(d, d.int(lo, hi), PCS_NAMES)
    hps = [pcs_hp(d, n, KINDS, d.chance(60)) for n in nm]
    spec = {"hps": hps, "conds": [], "forbs": [], "seed": d.seed()}
    spec["conds"] = conditions(d, hps, pcond=60, nest=0, conj=("and", "or") if conj else None)
    spec["hps"] = d.shuffle(hps) if d.chance(50) else hps
    spec["forbs"] = forbiddens(d, spec, 0, forbs, rel=False)
    return spec


def gen(d):
    spec = base(d, 1, 7)
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 4))]}


def check(case):
    return check_roundtrip(pcs_new, case)


def gen_text(d):
    """Or of Ands, as text."""
    spec = base(d, 3, 6, forbs=0, conj=False)
    spec["conds"] = []
    child, parents = spec["hps"][0], spec["hps"][1:]
    ors = []
    for _ in range(d.int(2, 3)):
        ands = [literal(d, child["name"], d.pick(parents)) for _ in range(d.int(1, 3))]
        ors.append(ands)
    return {"spec": spec, "ors": ors, "space": d.chance(50),
            "asgs": [full_assignment(d, spec) for _ in range(d.int(2, 6))]}


OPS = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">"}


def lit_text(c):
    if c["op"] == "in":
        return f"{c['parent']} in {{{', '.join(str(v) for v in c['values'])}}}"
    return f"{c['parent']} {OPS[c['op']]} {c['value']}"


def check_text(case):
    spec = dict(case["spec"])
    child = spec["hps"][0]["name"]
    parts = []
    for ands in case["ors"]:
        parts.append({"op": "and", "child": child, "parts": ands} if len(ands) > 1 else ands[0])
    spec["conds"] = [{"op": "or", "child": child, "parts": parts}]
    plainspec = dict(spec, conds=[])
    line = " || ".join(" && ".join(lit_text(c) for c in ands) for ands in case["ors"])
    text = pcs_new.write(build_space(plainspec)).split("\n")
    text += ["# a comment", f"{child} | {line}  # another"]
    new = pcs_new.read(text)
    conforms(new, textual(spec), [text_asg(spec, a) for a in case["asgs"]], meta=False,
             clauses=False)
    return ["mixed" if any(len(a) > 1 for a in case["ors"]) else "or"]


BAD = ["weights", "relation", "relation in and", "nested", "name", "choice", "constant", "element"]


def gen_refused(d):
    spec = base(d, 3, 5, forbs=1, conj=False)
    return {"spec": spec, "bad": d.pick(BAD), "char": d.pick(["#", " ", ",", "|", "{", "]", "=", "'"]),
            "op": d.pick(["rlt", "rgt"])}


def check_refused(case):
    spec = case["spec"]
    extra = []
    bad = case["bad"]
    forbs, conds = [], []
    if bad == "weights":
        extra = [{"k": "cat", "name": "zz", "choices": ["p", "q"], "weights": [0.25, 0.75]}]
    elif bad in ("relation", "relation in and"):
        extra = [{"k": "ui", "name": n, "lower": 0, "upper": 5, "log": False, "default": 2}
                 for n in ("zz", "yy")]
        forbs = [{"op": case["op"], "left": "zz", "right": "yy"}]
        if bad == "relation in and":
            forbs = [{"op": "and", "parts": [forbs[0], {"op": "in", "hp": "zz", "values": [1, 3]}]}]
    elif bad == "nested":
        extra = [{"k": "cat", "name": n, "choices": ["p", "q"]} for n in ("xx", "yy", "zz")]
        lit = [{"op": "eq", "child": "zz", "parent": p, "value": v} for p in ("xx", "yy") for v in "pq"]
        conds = [{"op": "and", "child": "zz", "parts": [
            {"op": "or", "child": "zz", "parts": [lit[0], lit[2]]}, lit[1]]}]
    elif bad == "name":
        extra = [{"k": "cat", "name": "z" + case["char"] + "z", "choices": ["p", "q"]}]
    elif bad == "choice":
        extra = [{"k": "cat", "name": "zz", "choices": ["p", "q" + case["char"] + "r"]}]
    elif bad == "constant":
        extra = [{"k": "const", "name": "zz", "value": "q" + case["char"] + "r"}]
    elif bad == "element":
        extra = [{"k": "ord", "name": "zz", "sequence": ["p", "q" + case["char"] + "r"]}]
    spec = dict(spec, hps=spec["hps"] + extra, forbs=spec["forbs"] + forbs, conds=spec["conds"] + conds)
    cs = build_space(spec)
    try:
        text = pcs_new.write(cs)
    except Exception:
        return [bad]
    raise Violation(f"{bad}: written as {text!r}")


def gen_hand(d):
    spec = base(d, 1, 6)
    return {"spec": spec, **layout(d), "asgs": [full_assignment(d, spec) for _ in range(d.int(1, 4))]}


def check_hand(case):
    return check_hand_written(pcs_new, case, False)


def gen_damaged(d):
    return {"spec": base(d, 1, 3), **layout(d), "bad": d.pick(DAMAGE), "at": d.int(0, 20)}


def check_damage(case):
    return check_damaged(pcs_new, case, False)


PARTS = [part("hand-written", gen_hand, check_hand, 800), part("damaged", gen_damaged, check_damage, 300),
         part("roundtrip", gen, check, 2000), part("text", gen_text, check_text, 700),
         part("refused", gen_refused, check_refused, 400)]
