"""C26: converting or copying a hyperparameter keeps what it shares with the target."""
import copy

from vp.lib import *

RULE = (
    "A case is a hyperparameter with the conversion to apply, or with the attributes to replace "
    "in a copy. The result is compared attribute by attribute with the description the "
    "conversion should give, and by equality, encodings, densities and samples with a "
    "hyperparameter constructed from that description. Non-trivial: every conversion or "
    "replacement that is possible."
)
ASSUMPTIONS = ["real ranges converted to integers contain at least two whole numbers (and at most a "
               "million, unless the distribution is uniform)",
               "meta data may or may not be carried over by conversions between integer and real"]

INT = {"uf": "ui", "nf": "ni", "bf": "bi"}
FLT = {v: k for k, v in INT.items()}
UNI = {"nf": "uf", "bf": "uf", "uf": "uf", "ni": "ui", "bi": "ui", "ui": "ui", "cat": "cat"}


def rint(x):
    f = math.floor(x)
    r = x - f
    if r < 0.5 or (r == 0.5 and f % 2 == 0):
        return f
    return f + 1


def converted(h, to):
    out = dict(h)
    if to == "integer":
        out["k"] = INT[h["k"]]
        out["lower"], out["upper"] = math.ceil(h["lower"]), math.floor(h["upper"])
        out["default"] = min(max(rint(h["default"]), out["lower"]), out["upper"])
    elif to == "float":
        out["k"] = FLT[h["k"]]
        for a in ("lower", "upper", "default"):
            out[a] = float(h[a])
    else:
        out["k"] = UNI[h["k"]]
        for a in ("mu", "sigma", "alpha", "beta", "weights"):
            out.pop(a, None)
        out["default"] = default_of(h)
    return out


def gen(d):
    h = hp(d, d.pick(["x", "lr", "a b"]), [k for k in HP_KINDS if k[0] not in ("ord", "const")],
           small=d.chance(20), mixes=LIST_MIX, meta=d.chance(40))
    k = h["k"]
    if k in FLOATS:
        ok = math.floor(h["upper"]) - math.ceil(h["lower"]) >= 1 and math.floor(h["upper"]) < 2**53
        if k != "uf":  # the densities of integers are summed up over their range
            ok = ok and h["upper"] - h["lower"] <= 10**6
        if h["log"] and k == "nf" and ok:  # not degenerate there either
            ok = abs(math.ceil(h["lower"]) + h["sigma"] - 1) > 0.05
        to = d.pick(["integer", "integer", "integer", "uniform"] if ok else ["uniform"])
        if ok and d.chance(20):
            h["default"] = d.pick([h["lower"], h["upper"]])
        if ok and d.chance(15):  # halves are rounded to even numbers
            v = math.ceil(h["lower"]) + 0.5
            if v <= h["upper"]:
                h["default"] = v
    elif k in INTS:
        to = d.pick(["float", "float", "uniform"])
    else:
        to = "uniform"
    return {"h": h, "to": to, "seed": d.seed()}


def same_hp(x, y, h, seed):
    """x and the explicitly constructed y are interchangeable."""
    ensure(x == y and y == x, f"{x!r} is not equal to {y!r}")
    vals = lattice(h)[:12]
    for v in vals:
        ensure(float(x.to_vector(v)) == float(y.to_vector(v)), f"encoding of {v!r}")
    ensure(np.array_equal(x.pdf_values(vals), y.pdf_values(vals)), "densities")
    a, b = x.sample_value(8, seed=rs(seed)), y.sample_value(8, seed=rs(seed))
    ensure([repr_val(v) for v in a] == [repr_val(v) for v in b], f"samples {a!r}, expected {b!r}")
    for v in a:
        ensure(legal_sample(h, plain(v)), f"illegal sample {v!r}")
        ensure(bool(x.legal_value(v)), f"sample {v!r} is not legal")
    c = vals[len(vals) // 2]
    if size_of(h) > 1:
        a, b = (z.neighbors_values(c, 4, seed=rs(seed)) for z in (x, y))
        ensure([repr_val(v) for v in a] == [repr_val(v) for v in b], "neighbours")


def legal_sample(h, v):
    if h["k"] in FLOATS:
        return h["lower"] - ftol(h) <= v <= h["upper"] + ftol(h)
    return legal(h, v)


def check(case):
    h, to, seed = case["h"], case["to"], case["seed"]
    x, twin = build_hp(h), build_hp(h)
    want = converted(h, to)
    new = {"integer": lambda: x.to_integer(), "float": lambda: x.to_float(),
           "uniform": lambda: x.to_uniform()}[to]()
    hp_conforms(new, want, meta=False)
    ensure(new.meta is None or new.meta == h.get("meta"), f"meta {new.meta!r}")
    ensure(x == twin and x.meta == twin.meta, "the source has changed")
    if to == "uniform":
        ensure(new.meta == h.get("meta"), f"meta {new.meta!r}, originally {h.get('meta')!r}")
    y = build_hp({k: v for k, v in want.items() if k != "meta"})
    if new.meta is not None:
        y = build_hp(want)
    same_hp(new, y, want, seed)
    if to == "float":
        back = new.to_integer()
        orig = build_hp({k: v for k, v in h.items() if k != "meta"})
        if back.meta is not None:
            orig = x
        ensure(back == orig, f"{back!r} is not equal to {orig!r}")
        hp_conforms(back, h, meta=False)
    elif to == "integer":
        back = new.to_float()
        hp_conforms(back, converted(want, "float"), meta=False)
    elif h["k"] in NUMS:
        ensure(new.to_uniform() == new, "uniform twice")
    return [f"{h['k']} to {to}"]


# ------------------------------------------------------------------------ copies
def gen_copy(d):
    h = hp(d, "x", HP_KINDS, small=d.chance(20), mixes=LIST_MIX, meta=d.chance(50), zero=True)
    k = h["k"]
    ch = {}
    if d.chance(40):
        ch["name"] = d.pick(["y", "other", ""])
    if d.chance(30):
        ch["meta"] = d.pick([None, {"b": 2}, {"a": 1}])
    other = hp(d, "x", [(k, 1)], mixes=LIST_MIX)
    if k in NUMS:
        r = d.int(0, 6)
        if r == 0:
            ch["default"] = d.pick(lattice(h))
        elif r == 1:
            w = h["upper"] - h["lower"]
            ch["upper"] = round(h["upper"] + w, 9) if k in FLOATS else h["upper"] + w
        elif r == 2:
            ch.update({a: other[a] for a in ("lower", "upper", "default")})
            if "mu" in h:
                ch.update(mu=other["mu"], sigma=other["sigma"])
            ch["log"] = other["log"]
        elif r == 3 and k not in ("nf", "ni"):
            ch["log"] = False
        elif r == 4 and "alpha" in h:
            ch[d.pick(["alpha", "beta"])] = d.pick([4.0, 1.0, 2.5])
        elif r == 5 and "mu" in h and not h["log"]:
            ch["mu"] = float(d.pick(lattice(h)))
        elif r == 6 and "mu" in h and not h["log"]:
            ch["sigma"] = h["sigma"] * d.pick([2.0, 0.5])
    elif k == "cat":
        r = d.int(0, 3)
        if r == 0:
            ch["default"] = d.pick(h["choices"])
        elif r == 1:
            ch["weights"] = [float(d.pick([1, 2, 3])) for _ in h["choices"]]
        elif r == 2:
            ch["choices"] = other["choices"]
            ch["default"] = d.pick(other["choices"])
            ch["weights"] = other.get("weights")
        else:
            ch["weights"] = None
    elif k == "ord":
        if d.chance(50):
            ch["default"] = d.pick(h["sequence"])
        else:
            ch["sequence"] = other["sequence"]
            ch["default"] = d.pick(other["sequence"])
    elif d.chance(60):
        ch["value"] = d.pick(["v", 2, None, True, 1.5])
    return {"h": h, "change": ch, "seed": d.seed()}


def check_copy(case):
    h, ch, seed = case["h"], case["change"], case["seed"]
    x, twin = build_hp(h), build_hp(h)
    x.pdf_values(lattice(h)[:2])  # what has been computed already must not matter
    kw = {("default_value" if a == "default" else a): v for a, v in ch.items()}
    new = x.copy(**kw)
    want = {**h, **ch}
    if h["k"] != "const":
        want["default"] = ch.get("default", default_of(h))
    ensure(new is not x, "the copy is the hyperparameter itself")
    hp_conforms(new, want)
    same_hp(new, build_hp(want), want, seed)
    ensure(x == twin and x.name == h["name"] and x.meta == h.get("meta"), "the source has changed")
    hp_conforms(x, h)
    for c in (copy.copy(x), copy.deepcopy(x)):
        ensure(c == x and c is not x, "not equal to its copy")
        same_hp(c, build_hp(h), h, seed)
        c.name = "renamed"
        ensure(x.name == h["name"], "renaming the copy renames the source")
        ensure(c != x, "equal despite different names")
    if hash_of(x) is not None:
        ensure(hash_of(copy.copy(x)) == hash_of(x), "hash of the copy")
    return [h["k"], *(f"{h['k']}.{a}" for a in sorted(ch))]


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


PARTS = [part("convert", gen, check, 4000), part("copy", gen_copy, check_copy, 4000)]
