"""Plain (JSON-able) descriptions of hyperparameters, clauses and spaces, and the
construction of the real objects from them through the public constructors.

hyperparameter  {"k": kind, "name": str, "default": value or absent, "meta": ..., ...}
    uf/ui  lower upper log            nf/ni  + mu sigma         bf/bi  + alpha beta
    cat    choices weights            ord    sequence           const  value
condition       {"op": eq|ne|lt|gt, "child", "parent", "value"}
                {"op": "in", "child", "parent", "values"}
                {"op": and|or, "child", "parts": [...]}
forbidden       {"op": "eq", "hp", "value"}  {"op": "in", "hp", "values"}
                {"op": "and", "parts"}       {"op": rlt|req|rgt, "left", "right"}
space           {"name", "meta", "seed", "hps", "conds", "forbs"}
"""
from __future__ import annotations

import vp.env  # noqa: F401
import ConfigSpace as CS
from ConfigSpace import (
    AndConjunction,
    BetaFloatHyperparameter,
    BetaIntegerHyperparameter,
    CategoricalHyperparameter,
    ConfigurationSpace,
    Constant,
    EqualsCondition,
    ForbiddenAndConjunction,
    ForbiddenEqualsClause,
    ForbiddenEqualsRelation,
    ForbiddenGreaterThanRelation,
    ForbiddenInClause,
    ForbiddenLessThanRelation,
    GreaterThanCondition,
    InCondition,
    LessThanCondition,
    NormalFloatHyperparameter,
    NormalIntegerHyperparameter,
    NotEqualsCondition,
    OrConjunction,
    OrdinalHyperparameter,
    UniformFloatHyperparameter,
    UniformIntegerHyperparameter,
)

FLOATS = ("uf", "nf", "bf")
INTS = ("ui", "ni", "bi")
NUMS = FLOATS + INTS
DISCRETE = INTS + ("cat", "ord", "const")

CLS = {
    "uf": UniformFloatHyperparameter,
    "ui": UniformIntegerHyperparameter,
    "nf": NormalFloatHyperparameter,
    "ni": NormalIntegerHyperparameter,
    "bf": BetaFloatHyperparameter,
    "bi": BetaIntegerHyperparameter,
    "cat": CategoricalHyperparameter,
    "ord": OrdinalHyperparameter,
    "const": Constant,
}


def hp_kwargs(s):
    k = s["k"]
    kw = {"name": s["name"]}
    if k in NUMS:
        kw.update(lower=s["lower"], upper=s["upper"], log=s["log"])
        if k in ("nf", "ni"):
            kw.update(mu=s["mu"], sigma=s["sigma"])
        if k in ("bf", "bi"):
            kw.update(alpha=s["alpha"], beta=s["beta"])
    elif k == "cat":
        kw["choices"] = list(s["choices"])
        if s.get("weights") is not None:
            kw["weights"] = list(s["weights"])
    elif k == "ord":
        kw["sequence"] = list(s["sequence"])
    else:
        kw["value"] = s["value"]
    if "default" in s:
        kw["default_value"] = s["default"]
    if s.get("meta") is not None:
        kw["meta"] = s["meta"]
    return kw


def build_hp(s):
    return CLS[s["k"]](**hp_kwargs(s))


COND = {
    "eq": EqualsCondition,
    "ne": NotEqualsCondition,
    "lt": LessThanCondition,
    "gt": GreaterThanCondition,
}
REL = {
    "rlt": ForbiddenLessThanRelation,
    "req": ForbiddenEqualsRelation,
    "rgt": ForbiddenGreaterThanRelation,
}


def build_cond(c, hps):
    op = c["op"]
    if op == "and":
        return AndConjunction(*[build_cond(p, hps) for p in c["parts"]])
    if op == "or":
        return OrConjunction(*[build_cond(p, hps) for p in c["parts"]])
    if op == "in":
        return InCondition(hps[c["child"]], hps[c["parent"]], list(c["values"]))
    return COND[op](hps[c["child"]], hps[c["parent"]], c["value"])


def build_forb(f, hps):
    op = f["op"]
    if op == "eq":
        return ForbiddenEqualsClause(hps[f["hp"]], f["value"])
    if op == "in":
        vals = f["values"]
        return ForbiddenInClause(hps[f["hp"]], tuple(vals) if len(vals) % 2 else list(vals))
    if op == "and":
        return ForbiddenAndConjunction(*[build_forb(p, hps) for p in f["parts"]])
    return REL[op](hps[f["left"]], hps[f["right"]])


def build_space(spec):
    cs = ConfigurationSpace(
        name=spec.get("name"),
        seed=spec.get("seed"),
        meta=spec.get("meta"),
    )
    hps = [build_hp(h) for h in spec["hps"]]
    cs.add(hps)
    conds = [build_cond(c, cs) for c in spec["conds"]]
    if conds:
        cs.add(conds)
    forbs = [build_forb(f, cs) for f in spec["forbs"]]
    if forbs:
        cs.add(forbs)
    return cs


def literals(c):
    if c["op"] in ("and", "or"):
        return [x for p in c["parts"] for x in literals(p)]
    return [c]


def cond_parents(c):
    out = []
    for x in literals(c):
        if x["parent"] not in out:
            out.append(x["parent"])
    return out


def forb_names(f):
    if f["op"] == "and":
        out = []
        for p in f["parts"]:
            out += [n for n in forb_names(p) if n not in out]
        return out
    if f["op"] in REL:
        return [f["left"]] if f["left"] == f["right"] else [f["left"], f["right"]]
    return [f["hp"]]


def rechild(c, child):
    """The same condition for another child."""
    c = dict(c, child=child)
    if "parts" in c:
        c["parts"] = [rechild(p, child) for p in c["parts"]]
    return c


def rename_cond(c, f):
    c = dict(c, child=f(c["child"]))
    if "parent" in c:
        c["parent"] = f(c["parent"])
    if "parts" in c:
        c["parts"] = [rename_cond(p, f) for p in c["parts"]]
    return c


def rename_forb(c, f):
    c = dict(c)
    for k in ("hp", "left", "right"):
        if k in c:
            c[k] = f(c[k])
    if "parts" in c:
        c["parts"] = [rename_forb(p, f) for p in c["parts"]]
    return c
