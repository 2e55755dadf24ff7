"""What the two PCS formats keep of a space."""
import itertools

from vp.lib import *

PCS_NAMES = [
    "a", "b", "c", "d", "k-2", "x:y", "@p", "m.n", "p/q", "k$", "ordinal_1", "categorical",
    "real", "integer", "log", "il", "i", "z_", "A", "lr", "n", "q", "w+",
]  # fmt: skip  (23 names: a prime)
PCS_STRS = ["x", "yes", "1", "0.5", "1x", "b-1", "True", "none", "categorical", "a+b", "c:d",
            "ordinal", "log", "-", "3-4", "1e5", "2.x"]  # fmt: skip


def pcs_values(d, lo, hi):
    if d.chance(8):
        return [f"v{i}" for i in range(d.int(5, 25))]
    n = d.int(lo, hi)
    mix = d.weighted([("str", 5), ("int", 2), ("bool", 1), ("float", 1)])
    if mix == "str":
        return d.subset(PCS_STRS, n, n)
    if mix == "int":
        return d.subset(list(range(-3, 10)), n, n)
    if mix == "bool":
        return d.subset([True, False], min(n, 2), min(n, 2))
    return d.subset([0.5, -1.25, 3.0, 1e-4, 2.5, 1e6, 0.1], min(n, 7), min(n, 7))


def pcs_hp(d, name, kinds, small):
    k = d.weighted(kinds)
    if k in NUMS:
        return hp(d, name, [(k, 1)], small)
    h = {"k": k, "name": name}
    if k == "const":
        h["value"] = d.pick([*PCS_STRS, 1, 0.5, True])
        return h
    vals = pcs_values(d, 1, 4)
    h["choices" if k == "cat" else "sequence"] = vals
    if d.chance(60):
        h["default"] = d.pick(vals)
    return h


def textual(spec):
    """The space that should come back: choices and constants as text, constants as
    single choices, priors uniform."""
    hps = []
    kind = {h["name"]: h["k"] for h in spec["hps"]}

    def t(n, v):
        return v if kind[n] in NUMS else str(v)

    for h in spec["hps"]:
        g = {"name": h["name"]}
        if h["k"] in NUMS:
            g.update(k="uf" if h["k"] in FLOATS else "ui", lower=h["lower"], upper=h["upper"],
                     log=h["log"], default=h["default"])
        elif h["k"] == "const":
            g.update(k="cat", choices=[str(h["value"])])
        else:
            key_ = "choices" if h["k"] == "cat" else "sequence"
            g.update(k=h["k"], default=str(default_of(h)))
            g[key_] = [str(v) for v in h[key_]]
        hps.append(g)

    def cond(c):
        c = dict(c)
        if "parts" in c:
            c["parts"] = [cond(p) for p in c["parts"]]
        elif "values" in c:
            c["values"] = [t(c["parent"], v) for v in c["values"]]
        else:
            c["value"] = t(c["parent"], c["value"])
        return c

    def forb(f):
        f = dict(f)
        if "parts" in f:
            f["parts"] = [forb(p) for p in f["parts"]]
        elif "values" in f:
            f["values"] = [t(f["hp"], v) for v in f["values"]]
        else:
            f["value"] = t(f["hp"], f["value"])
        return f

    return {"hps": hps, "conds": [cond(c) for c in spec["conds"]],
            "forbs": [forb(f) for f in spec["forbs"]], "seed": 0}


def text_asg(spec, a):
    kind = {h["name"]: h["k"] for h in spec["hps"]}
    return {n: v if kind[n] in NUMS else str(v) for n, v in a.items()}


def check_roundtrip(mod, case, labels=()):
    spec = case["spec"]
    cs, twin = build_space(spec), build_space(spec)
    text = mod.write(cs)
    ensure(cs == twin, "writing changed the space")
    want = textual(spec)
    new = mod.read(text.split("\n"))
    m = conforms(new, want, [text_asg(spec, a) for a in case["asgs"]], meta=False, clauses=False)
    # the same configurations are valid in both: samples of one are valid in the other
    orig = Model(spec)
    for c in cs.sample_configuration(4):
        a = text_asg(spec, asg_of(c))
        if m.problems(a) is not None:
            ensure(not raises(lambda: make(new, a), ValueError), f"{a!r} no longer valid")
    back = {h["name"]: {str(v): v for v in domain(h)} for h in spec["hps"] if h["k"] not in NUMS}
    for c in new.sample_configuration(4):
        a = {n: back[n][v] if n in back else v for n, v in asg_of(c).items()}
        if orig.problems(a) is not None:
            ensure(not raises(lambda: make(cs, a), ValueError), f"{a!r} newly valid")
    again = mod.read(mod.write(new).split("\n"))
    ensure(again == new, "writing and reading once more gives another space")
    lab = kinds_label(spec)
    return [*lab, *labels] if lab else None


# ------------------------------------------------------------------ hand-written text
COMMENTS = ["# a comment", "#", "# old: a {x, y} [x] | {b=1}", "# gone {x, y} [x] # dropped",
            "## gone integer [1, 5] [2] # dropped", "", "   ", "Conditionals:", "Forbidden:"]
OPS = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">"}


def layout(d):
    return {"lay": [d.int(0, 11) for _ in range(d.int(1, 12))],
            "order": d.pick(["kept", "kept", "mixed"]), "end": d.pick(["", "\n", "\r\n"])}


class Lay:
    """Decisions about blanks, quotes, comments and spellings of numbers."""

    def __init__(self, lay):
        self.lay, self.i = lay, 0

    def next(self, n):
        self.i += 1
        return self.lay[self.i % len(self.lay)] % n

    def gap(self):
        return ["", " ", "  ", "\t"][self.next(4)]

    def blank(self):
        return [" ", "  ", "\t", " "][self.next(4)]

    def join(self, *tokens):
        return "".join(t + self.gap() for t in tokens)

    def word(self, v):
        s = str(v)
        return [s, s, s, f'"{s}"', f"'{s}'"][self.next(5)]

    def number(self, v):
        if isinstance(v, int):
            s = str(v)
        else:
            s = repr(v)
            forms = [s, f"{v:.17g}", f"{v:.16e}", f"{v:.16E}"]
            if v == int(v) and abs(v) < 1e15:
                forms.append(str(int(v)))
            s = forms[self.next(len(forms))]
        return "+" + s if v > 0 and self.next(6) == 0 else s

    def listed(self, a, vals, b):
        out = [a]
        for i, v in enumerate(vals):
            out += [","] * (i > 0) + [self.word(v)]
        return self.join(*out, b)


def hand_written(spec, case, old):
    """The lines of a file a user could have written for the description."""
    lay = Lay(case["lay"])
    kind = {h["name"]: h["k"] for h in spec["hps"]}
    params, rest = [], []
    for h in spec["hps"]:
        k, n = h["k"], lay.word(h["name"])
        if k in NUMS:
            typ = "" if old else "integer" if k in INTS else "real"
            flag = (("i" if k in INTS else "") + ("l" if h["log"] else "")) if old else \
                "log" if h["log"] else ""
            if lay.next(2):
                flag = flag[::-1] if old else flag
            params.append(n + lay.blank() + lay.join(
                typ, "[", lay.number(h["lower"]), ",", lay.number(h["upper"]), "]", "[",
                lay.number(h["default"]), "]", flag))
            continue
        vals = [h["value"]] if k == "const" else h["choices"] if k == "cat" else h["sequence"]
        typ = "" if old else "ordinal" if k == "ord" else "categorical"
        dflt = vals[0] if k == "const" else default_of(h)
        params.append(n + lay.blank() + lay.join(typ, lay.listed("{", vals, "}"),
                                                 "[", lay.word(dflt), "]"))

    def lit(c):
        num = kind[c["parent"]] in NUMS
        put = lay.number if num else lay.word
        head = lay.word(c["parent"]) + lay.blank()
        if c["op"] == "in":
            vals = [t for i, v in enumerate(c["values"]) for t in ([","] * (i > 0) + [put(v)])]
            return head + "in" + lay.blank() + lay.join("{", *vals, "}")
        if old:
            return head + "in" + lay.blank() + lay.join("{", put(c["value"]), "}")
        return head + OPS[c["op"]] + lay.blank() + put(c["value"]) + lay.blank()

    for c in spec["conds"]:
        child = lay.word(c["child"]) + lay.blank() + "|" + lay.gap()
        parts = [c] if "parts" not in c else c["parts"]
        if old:
            rest += [child + lit(p) for p in flat_parts(parts)]
        else:
            sep = " && " if c["op"] == "and" else " || "
            rest.append(child + sep.join(lit(p) for p in parts))
    for f in spec["forbs"]:
        parts = [f] if "parts" not in f else flat_parts(f["parts"])
        options = [[(p["hp"], v) for v in p.get("values", [p.get("value")])] for p in parts]
        for combo in itertools.product(*options):
            out = ["{"]
            for i, (n, v) in enumerate(combo):
                out += [","] * (i > 0) + [lay.word(n), "=",
                                          (lay.number if kind[n] in NUMS else lay.word)(v)]
            rest.append(lay.join(*out, "}"))
    lines = []
    for x in (params + rest if case["order"] == "kept" else merge(lay, params, rest)):
        if lay.next(5) == 0:
            lines.append(COMMENTS[lay.next(len(COMMENTS))])
        if lay.next(5) == 0:
            x += " # " + ["note", "{x} [y]", "a | b", "was log # since {x}"][lay.next(4)]
        lines.append(lay.gap() + x)
    return [x + case["end"] for x in lines]


def flat_parts(parts):
    return [x for p in parts for x in (flat_parts(p["parts"]) if "parts" in p else [p])]


def merge(lay, params, rest):
    out, params, rest = [], list(params), list(rest)
    while params or rest:
        src = params if params and (not rest or lay.next(2)) else rest
        out.append(src.pop(0))
    return out


def check_hand_written(mod, case, old):
    spec = case["spec"]
    lines = hand_written(spec, case, old)
    new = mod.read(lines)
    try:
        m = conforms(new, textual(spec), [text_asg(spec, a) for a in case["asgs"]], meta=False, clauses=False)
    except Violation as e:
        raise Violation(f"read from {lines!r}: {e}") from e
    ensure(mod.read(iter(lines)) == new, "reading lines one by one gives another space")
    lab = kinds_label(spec)
    return [*lab, case["order"]] if lab else None


DAMAGE = ["unknown child", "unknown parent", "foreign value", "no brace", "twice", "default",
          "empty", "bounds", "forbidden name", "forbidden value", "no list", "number for word"]


def damaged(case, old):
    """Lines of which one cannot be meant."""
    spec = dict(case["spec"])
    x = {"k": "cat", "name": "xx", "choices": ["p", "q", "r"]}
    i = {"k": "ui", "name": "ii", "lower": 2, "upper": 9, "log": False, "default": 3}
    spec["hps"] = [*spec["hps"], x, i]
    lines = hand_written(spec, case, old)
    cat, num = ("", "") if old else ("categorical ", "integer ")
    isin = "in {%s}"
    bad = {
        "unknown child": "nobody | xx " + isin % "p",
        "unknown parent": "ii | nobody " + isin % "p",
        "foreign value": "ii | xx " + isin % "p, s",
        "no brace": f"yy {cat}{{p, q [p]",
        "twice": f"xx {cat}{{p, q}} [p]",
        "default": f"yy {cat}{{p, q}} [r]",
        "empty": f"yy {cat}{{}} [r]",
        "bounds": f"yy {num}[5, 2] [3]" + ("i" if old else ""),
        "forbidden name": "{xx=q, nobody=p}",
        "forbidden value": "{xx=q, ii=10}",
        "no list": "ii | xx in",
        "number for word": f"yy {num}[a, b] [a]",
    }[case["bad"]]
    lines.insert(case["at"] % (len(lines) + 1), bad)
    return lines


def check_damaged(mod, case, old):
    lines = damaged(case, old)
    try:
        cs = mod.read(lines)
    except Exception:
        return [case["bad"]]
    raise Violation(f"{case['bad']}: {lines!r} read as {cs}")
