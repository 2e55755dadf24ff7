"""C31: older documents and custom codecs load to the same space."""
import copy
import io
import json

from vp.lib import *
from ConfigSpace import ConfigurationSpace
from ConfigSpace.conditions import Conjunction
from ConfigSpace.forbidden import ForbiddenConjunction, ForbiddenRelation
from ConfigSpace.read_and_write import json as csj

RULE = (
    "Part 'older': a case is a space and a choice of entries of its document to be spelled the "
    "older way (default key, left-over quantisation and probability fields, relation layout, "
    "omitted empty fields); the loaded space is compared with the description. Part 'codecs': a "
    "case is a space and a set of types with own encoders and decoders that record what they "
    "are given. Non-trivial: at least one entry respelled, or one custom codec used."
)
ASSUMPTIONS = ["older documents have no default that is the value none"]

REL_NAMES = {"RELATION_LT": "LT", "RELATION_EQ": "EQ", "RELATION_GT": "GT"}


def gen(d):
    spec = space(d, 1, 7, small=d.chance(50), mixes=LIST_MIX, forbs=(0, 4), meta=d.chance(40), nest=2)
    if d.chance(30):
        r = relation(d, spec["hps"])
        m = Model(spec)
        if r is not None and m.forb(r, m.default_config() or {}) is False and r not in spec["forbs"]:
            spec["forbs"].append(r)
    return {"spec": spec, "bits": [d.int(0, 127) for _ in range(12)],
            "how": d.pick(["dict", "json", "module", "yaml"])}


def older(doc, bits):
    """The document in older spellings; which ones depends on the bits."""
    doc = copy.deepcopy(doc)
    used = []
    it = iter(bits * 20)

    def rel(f):
        if f["type"] == "AND":
            f["clauses"] = [rel(c) for c in f["clauses"]]
        elif f["type"] in REL_NAMES and next(it) % 4:
            used.append("relation")
            return {"left": f["left"], "right": f["right"], "type": "RELATION",
                    "lambda": REL_NAMES[f["type"]]}
        return f

    for h in doc["hyperparameters"]:
        b = next(it)
        if b & 1 and h.get("default_value") is not None:
            h["default"] = h.pop("default_value")
            used.append("default")
        if b & 2 and h["type"] not in ("categorical", "ordinal", "constant"):
            h["q"] = None if b & 4 else (0.5 if "float" in h["type"] else 2)
            used.append("q")
        if b & 8 and h["type"] == "categorical":
            n = len(h["choices"])
            h["probabilities"] = [1.0 / n] * n
            used.append("probabilities")
        for k in ("meta", "weights"):
            if b & 16 and k in h and h[k] is None:
                del h[k]
                used.append("omitted")
        if b & 32:
            items = list(h.items())[::-1]
            h.clear()
            h.update(items)
    doc["forbiddens"] = [rel(f) for f in doc["forbiddens"]]
    b = next(it)
    for i, k in enumerate(("conditions", "forbiddens", "name", "meta")):
        if b >> i & 1 and k in doc and not doc[k]:
            del doc[k]
    if b & 16:
        doc.pop("python_module_version", None)
        doc["format_version"] = 0.2
    if b & 32:
        doc.pop("format_version", None)
    return doc, used


def load(doc, how, **kw):
    if how == "dict":
        return ConfigurationSpace.from_serialized_dict(doc, **kw)
    text = json.dumps(doc)
    if how == "json":
        return ConfigurationSpace.from_json(io.StringIO(text), **kw)
    if how == "yaml":
        import yaml

        return ConfigurationSpace.from_yaml(io.StringIO(yaml.safe_dump(json.loads(text))), **kw)
    return csj.read(text, **kw)


def check(case):
    spec = case["spec"]
    cs = build_space(spec)
    doc, used = older(cs.to_serialized_dict(), case["bits"])
    before = copy.deepcopy(doc)
    new = load(doc, case["how"])
    ensure(doc == before, "reading changed the document")
    conforms(new, spec)
    ensure(new == cs and cs == new, f"loading {doc!r} gives another space")
    ensure(list(new) == list(cs), "order")
    ensure(new.to_serialized_dict() == cs.to_serialized_dict(), "written again, another document")
    again = load(doc, case["how"])
    ensure(again == new, "loading twice gives different spaces")
    return sorted(set(used)) or None


# ------------------------------------------------------------------ custom codecs
def gen_codec(d):
    spec = space(d, 1, 7, small=d.chance(50), mixes=LIST_MIX, forbs=(0, 4), nest=2, pcond=65)
    return {"spec": spec, "types": d.int(0, 2**22), "same": d.chance(40),
            "how": d.pick(["dict", "json", "module", "yaml"])}


def objects(cs):
    """All encoded objects, nested ones included, with the section they are in."""
    out = [("hyperparameters", x) for x in cs.values()]

    def walk(sec, x):
        out.append((sec, x))
        for c in getattr(x, "components", ()):
            walk(sec, c)

    for x in cs.conditions:
        walk("conditions", x)
    for x in cs.forbidden_clauses:
        walk("forbiddens", x)
    return out


def section_of(t):
    for sec, ts in TYPES.items():
        if t in ts:
            return sec
    raise KeyError(t)


NAMES_OF = {
    "uf": "uniform_float", "ui": "uniform_int", "nf": "normal_float", "ni": "normal_int",
    "bf": "beta_float", "bi": "beta_int", "cat": "categorical", "ord": "ordinal", "const": "constant",
}
CONDS = {"eq": "EQ", "ne": "NEQ", "lt": "LT", "gt": "GT", "in": "IN", "and": "AND", "or": "OR"}
FORBS = {"eq": "EQUALS", "in": "IN", "and": "AND", "rlt": "RELATION_LT", "req": "RELATION_EQ",
         "rgt": "RELATION_GT"}
DOC_NAME = {}
for _k, _n in NAMES_OF.items():
    DOC_NAME[CLS[_k]] = _n
import ConfigSpace as _CS  # noqa: E402

TYPES = {
    "hyperparameters": list(DOC_NAME),
    "conditions": [_CS.EqualsCondition, _CS.NotEqualsCondition, _CS.LessThanCondition,
                   _CS.GreaterThanCondition, _CS.InCondition, _CS.AndConjunction, _CS.OrConjunction],
    "forbiddens": [_CS.ForbiddenEqualsClause, _CS.ForbiddenInClause, _CS.ForbiddenAndConjunction,
                   _CS.ForbiddenLessThanRelation, _CS.ForbiddenEqualsRelation,
                   _CS.ForbiddenGreaterThanRelation],
}
DOC_NAME.update(zip(TYPES["conditions"], CONDS.values()))
DOC_NAME.update(zip(TYPES["forbiddens"], FORBS.values()))
EVERY = [t for ts in TYPES.values() for t in ts]


def codec(t, plain_docs, same, log):
    """(type name, encoder, decoder) for one type, recording their use."""
    name = DOC_NAME[t] if same else "my " + t.__name__

    def enc(x, rec):
        log.append(("enc", t, type(x)))
        if section_of(t) == "hyperparameters":
            return {"own": {k: v for k, v in plain_docs[x.name].items() if k != "type"}}
        if issubclass(t, (Conjunction, ForbiddenConjunction)):
            return {"own": [rec(c, rec) for c in x.components]}
        if issubclass(t, ForbiddenRelation):
            return {"own": [x.left.name, x.right.name]}
        if section_of(t) == "conditions":
            return {"own": [x.child.name, x.parent.name, list(x.values) if hasattr(x, "values") else x.value]}
        return {"own": [x.hyperparameter.name, list(x.values) if hasattr(x, "values") else x.value]}

    def dec(item, cs, rec):
        log.append(("dec", t, name))
        ensure("own" in item, f"decoder of {t.__name__} was given {item!r}")
        own = item["own"]
        if section_of(t) == "hyperparameters":
            return t(**own)
        if issubclass(t, (Conjunction, ForbiddenConjunction)):
            return t(*[rec(c, cs, rec) for c in own])
        if issubclass(t, ForbiddenRelation):
            return t(cs[own[0]], cs[own[1]])
        if section_of(t) == "conditions":
            return t(cs[own[0]], cs[own[1]], own[2])
        return t(cs[own[0]], own[1])

    return name, enc, dec


def strip(entry, custom):
    """An entry without what the custom codecs wrote."""
    if entry["type"] in custom:
        return "custom"
    e = dict(entry)
    for k in ("conditions", "clauses"):
        if k in e:
            e[k] = [strip(c, custom) for c in e[k]]
    return e


def strip_plain(entry, sec, custom_types):
    names = {DOC_NAME[t] for t in custom_types if section_of(t) == sec}
    return strip(entry, names)


def check_codec(case):
    spec = case["spec"]
    cs = build_space(spec)
    first = cs.to_serialized_dict()
    plain_docs = {h["name"]: h for h in first["hyperparameters"]}
    types = [t for i, t in enumerate(EVERY) if case["types"] >> i & 1]
    log = []
    encs, decs, names = {}, {}, {}
    for t in types:
        name, enc, dec = codec(t, plain_docs, case["same"], log)
        encs[t] = (name, enc)
        decs.setdefault(section_of(t), {})[name] = dec
        names.setdefault(section_of(t), set()).add(name)
    how = case["how"]
    if how == "dict":
        doc = cs.to_serialized_dict(encoders=encs)
    elif how == "json":
        f = io.StringIO()
        cs.to_json(f, encoders=encs)
        doc = json.loads(f.getvalue())
    elif how == "yaml":
        import yaml

        f = io.StringIO()
        cs.to_yaml(f, encoders=encs)
        doc = yaml.safe_load(f.getvalue())
    else:
        doc = json.loads(csj.write(cs, encoders=encs))
    objs = objects(cs)
    used = [t for t in types if any(type(x) is t for _, x in objs)]
    for t in types:
        want = sum(type(x) is t for _, x in objs)
        got = sum(e[:2] == ("enc", t) for e in log)
        ensure(got == want, f"encoder of {t.__name__} used {got} times, expected {want}")
    for e in log:
        ensure(e[2] is e[1], f"encoder of {e[1].__name__} was given a {e[2].__name__}")
    for sec in ("hyperparameters", "conditions", "forbiddens"):
        ensure(len(doc[sec]) == len(first[sec]), f"{len(doc[sec])} {sec}")
        for a, b in zip(doc[sec], first[sec]):
            a = strip(a, names.get(sec, ()))
            b = strip_plain(b, sec, types)
            ensure(a == b, f"entry {a!r}, usually {b!r}")
    n = len(log)
    new = load(doc, how, decoders=decs)
    dlog = log[n:]
    for t in types:
        want = sum(type(x) is t for _, x in objs)
        got = sum(e[:2] == ("dec", t) for e in dlog)
        ensure(got == want, f"decoder of {t.__name__} used {got} times, expected {want}")
    conforms(new, spec)
    ensure(new == cs, "the loaded space is not equal to the original")
    ensure(cs.to_serialized_dict() == first, "custom encoders stay in use")
    ensure(ConfigurationSpace.from_serialized_dict(first) == cs, "custom decoders stay in use")
    if used and not case["same"]:
        ensure(raises(lambda: load(doc, "dict"), ValueError, KeyError),
               "a document with custom types loads without their decoders")
    return [t.__name__ for t in used] or None


class Own(CLS["cat"]):
    """A user-defined kind of hyperparameter."""


def gen_own(d):
    spec = space(d, 1, 5, small=True, mixes=PLAIN_MIX, forbs=(0, 2), pcond=50)
    return {"spec": spec, "i": d.int(0, 7)}


def check_own(case):
    """A type of one's own, derived from an existing one."""
    spec = case["spec"]
    cats = [h["name"] for h in spec["hps"] if h["k"] == "cat"]
    if not cats:
        raise Skip
    n = cats[case["i"] % len(cats)]
    cs = ConfigurationSpace()
    table = {}
    for h in spec["hps"]:
        x = build_hp(h)
        if h["name"] == n:
            x = Own(**hp_kwargs(h))
        table[h["name"]] = x
    cs.add(list(table.values()))
    cs.add([build_cond(c, table) for c in spec["conds"]], [build_forb(f, table) for f in spec["forbs"]])
    ensure(raises(cs.to_serialized_dict, ValueError), "a type without encoder is written")
    doc = cs.to_serialized_dict(encoders={Own: ("own", lambda x, e: {
        "n": x.name, "c": list(x.choices), "w": list(x.weights) if x.weights else None,
        "d": x.default_value})})
    kinds = [h["type"] for h in doc["hyperparameters"]]
    ensure(kinds.count("own") == 1, f"types {kinds}")
    new = ConfigurationSpace.from_serialized_dict(doc, decoders={"hyperparameters": {
        "own": lambda i, cs, e: Own(i["n"], i["c"], weights=i["w"], default_value=i["d"])}})
    ensure(type(new[n]) is Own and new == cs, "a user-defined type is not restored")
    ensure(raises(lambda: ConfigurationSpace.from_serialized_dict(doc), ValueError),
           "a user-defined type is read without a decoder")
    return ["own type"]


PARTS = [part("older", gen, check, 1500), part("codecs", gen_codec, check_codec, 1500),
         part("own types", gen_own, check_own, 300)]
