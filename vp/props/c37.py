"""C37: printed spaces, hyperparameters, clauses and configurations tell what they are."""
from vp.lib import *

RULE = (
    "A case is a space and a valid assignment. The printed space must contain one entry per "
    "hyperparameter, condition and forbidden clause, each naming its parts and values; the "
    "printed configuration, read as Python, must give back exactly the active values; objects "
    "that differ in a declared attribute must print differently. Non-trivial: at least one "
    "clause, or two hyperparameters that differ in one attribute."
)
ASSUMPTIONS = [
    "texts and numbers that look alike (a choice \"1\" and a choice 1) may print alike in a "
    "hyperparameter's line, and so may weights",
]

OPS = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">"}
REL_OPS = {"rlt": "<", "req": "==", "rgt": ">"}


def tokens_in_order(text, toks, what):
    at = 0
    for t in toks:
        i = text.find(str(t), at)
        ensure(i >= 0, f"{what}: {t!r} missing (after position {at}) in {text!r}")
        at = i + len(str(t))


def hp_text(x, h):
    s = str(x)
    ensure(s.startswith(h["name"]), f"{s!r} for {h!r}")
    k = h["k"]
    if k in NUMS:
        lo, up = x.lower, x.upper
        ensure(f"[{lo}, {up}]" in s.replace("np.float64(", "").replace(")", ""), f"bounds missing in {s!r}")
        want = {"nf": ("mu", "sigma"), "ni": ("mu", "sigma"), "bf": ("alpha", "beta"), "bi": ("alpha", "beta")}
        for a in want.get(k, ()):
            ensure(str(getattr(x, a)) in s, f"{a} missing in {s!r}")
        ensure(("log" in s[len(h["name"]):]) is h["log"], f"scale in {s!r}")
        ensure(str(x.default_value) in s, f"default missing in {s!r}")
    elif k == "const":
        ensure(str(h["value"]) in s[len(h["name"]):], f"value missing in {s!r}")
    else:
        vals = h["choices" if k == "cat" else "sequence"]
        tokens_in_order(s, [h["name"], *vals, f"Default: {x.default_value}"], "hyperparameter")


def cond_text(c):
    """Pieces that must appear in this order."""
    if "parts" in c:
        out = []
        for i, p in enumerate(c["parts"]):
            if i:
                out.append("&&" if c["op"] == "and" else "||")
            out += cond_text(p)
        return out
    if c["op"] == "in":
        return [c["child"], "|", c["parent"], "in", *[repr(v) for v in c["values"]]]
    return [c["child"], "|", c["parent"], OPS[c["op"]], repr(c["value"])]


def forb_text(f):
    if f["op"] == "and":
        out = []
        for i, p in enumerate(f["parts"]):
            out += (["&&"] if i else []) + forb_text(p)
        return out
    if f["op"] in REL_OPS:
        return [f["left"], REL_OPS[f["op"]], f["right"]]
    if f["op"] == "in":
        return [f["hp"], "in", *[repr(v) for v in f["values"]]]
    return [f["hp"], "==", repr(f["value"])]


def cond_dict(x, c):
    """The dictionary form names the same parts."""
    ensure(x["child"] == c["child"], f"child in {x!r}")
    if "parts" in c:
        ensure(len(x["conditions"]) == len(c["parts"]), f"{x!r} for {c!r}")
        for a, b in zip(x["conditions"], c["parts"]):
            cond_dict(a, b)
        return
    ensure(x["parent"] == c["parent"], f"parent in {x!r}")
    if c["op"] == "in":
        ensure(same_attr(list(x["values"]), list(c["values"])), f"{x!r} for {c!r}")
    else:
        ensure(same_attr(x["value"], c["value"]), f"{x!r} for {c!r}")


def forb_dict(x, f):
    if f["op"] == "and":
        ensure(len(x["clauses"]) == len(f["parts"]), f"{x!r} for {f!r}")
        for a, b in zip(x["clauses"], f["parts"]):
            forb_dict(a, b)
    elif f["op"] in REL_OPS:
        ensure((x["left"], x["right"]) == (f["left"], f["right"]), f"{x!r} for {f!r}")
    else:
        ensure(x["name"] == f["hp"], f"{x!r} for {f!r}")
        if f["op"] == "in":
            ensure(same_attr(list(x["values"]), list(f["values"])), f"{x!r} for {f!r}")
        else:
            ensure(same_attr(x["value"], f["value"]), f"{x!r} for {f!r}")


def gen(d):
    spec = space(d, 1, 7, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 3), pcond=60)
    if d.chance(30):
        spec["name"] = d.pick(["my space", "x"])
    return {"spec": spec, "asg": [valid_assignment(d, spec) for _ in range(3)]}


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    text = str(cs)
    ensure(repr(cs) == text, "repr and str of the space differ")

    def entry(x):
        """Where it stands, on its own (a long one may take several lines)."""
        s = f"\n    {x}\n"
        ensure(text.count(s) == 1, f"{str(x)!r} is not an entry of {text!r}")
        return text.find(s)

    if spec.get("name"):
        ensure(spec["name"] in text, f"name missing in {text!r}")
    for h in spec["hps"]:
        x = cs[h["name"]]
        hp_text(x, h)
        entry(x)
    used = 0
    for c, x in [(c, cs.parent_conditions_of[c["child"]][0]) for c in spec["conds"]]:
        tokens_in_order(str(x), cond_text(c), "condition")
        cond_dict(x.to_dict(), c)
        ensure(f"\n    {x}\n" in text, f"{str(x)!r} is not an entry of {text!r}")
        used += 1
    clauses = [build_forb(f, cs) for f in spec["forbs"]]
    for f, x in zip(spec["forbs"], clauses):
        tokens_in_order(str(x), forb_text(f), "clause")
        forb_dict(x.to_dict(), f)
        ensure(f"\n    {x}\n" in text, f"{str(x)!r} is not an entry of {text!r}")
        used += 1
    for x in cs.forbidden_clauses:
        ensure(f"\n    {x}\n" in text, f"{str(x)!r} is not an entry of {text!r}")
    order = [entry(cs[n]) for n in sorted(cs)]
    ensure(order == sorted(order), f"not by name: {text!r}")
    for a in case["asg"]:
        if a is None:
            continue
        for cfg in (Configuration(cs, values=a), Configuration(cs, vector=vec_of(cs, a))):
            s = str(cfg)
            ensure(repr(cfg) == s, "repr and str of the configuration differ")
            ensure(s.startswith("Configuration(values={") and s.endswith("})"), f"{s!r}")
            got = eval(s[len("Configuration(values="):-1], {"__builtins__": {}, "np": np})  # noqa: S307
            got = {n: plain(v) for n, v in got.items()}
            ensure(same_asg(m, got, a), f"{s!r} for {a!r}")
            ensure(list(got) == [n for n in cs if n in a], f"order in {s!r}")
    return ["clauses"] if used else None


def gen_pair(d):
    h = hp(d, "x", HP_KINDS, small=d.chance(40), mixes=PLAIN_MIX)
    o = dict(h)
    k = h["k"]
    if k in NUMS:
        ops = ["upper", "default", "log"]
        ops += ["mu", "sigma"] if k in ("nf", "ni") else ["alpha", "beta"] if k in ("bf", "bi") else []
        op = d.pick(ops)
        if op == "upper":
            o["upper"] = h["upper"] + (1 if k in INTS else abs(h["upper"]) + 1)
        elif op == "default":
            o["default"] = d.pick(lattice(h))
        elif op == "log":
            o["log"] = False
        elif op in ("mu", "sigma"):
            o[op] = h[op] * 2 if h[op] else 1.0
            if o["log"] and op == "sigma":
                o[op] = h[op]
        else:
            o[op] = h[op] + d.pick([0.5, 1, 3])
    elif k == "const":
        op, o["value"] = "value", d.pick(["x", "y", 3, 4.5])
    else:
        key_ = "choices" if k == "cat" else "sequence"
        op = d.pick(["more", "default", "name", "order"])
        if op == "more":
            o[key_] = [*h[key_], "another"]
            o.pop("weights", None)
        elif op == "default":
            o["default"] = d.pick(h[key_])
        elif op == "order":
            o[key_] = h[key_][::-1]
        else:
            o["name"] = "y"
    return {"h": h, "o": o, "op": op}


def check_pair(case):
    h, o, op = case["h"], case["o"], case["op"]
    x, y = build_hp(h), build_hp(o)
    hp_text(x, h)
    hp_text(y, o)
    ensure(str(x) == str(build_hp(h)), f"{x} prints differently when built again")
    if op == "order" and h["k"] == "cat":
        same = len(h["choices"]) < 2
    else:
        same = x == y
    if same:
        return None
    ensure(str(x) != str(y), f"{op}: both print as {str(x)!r}")
    return [op]


PARTS = [part("space", gen, check, 2500), part("pair", gen_pair, check_pair, 2500)]
