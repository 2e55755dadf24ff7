"""C01: values and encodings translate into each other without loss."""
from vp.lib import *

RULE = (
    "A case is one hyperparameter (any kind, bounds over 12 orders of magnitude, linear or "
    "log, any choice list) with a list of values and fractions. Non-trivial: more than one "
    "value in the domain."
)
ASSUMPTIONS = [
    "real bounds have at most 9 significant digits and magnitude between 1e-6 and 1e12 "
    "(values are rounded to 13 decimals by design)",
    "integer domains up to 2e6 wide with offsets up to 2.5e6",
]


def gen(d):
    h = hp(d, "x", HP_KINDS, mixes=LIST_MIX)
    n = d.int(1, 8)
    return {"hp": h, "fr": [d.int(0, 4096) for _ in range(n)]}


def gen_big(d):
    """Wide and far away integer ranges."""
    lo = d.int(-(2**31), 2**31)
    w = d.int(1, 2**31)
    h = {"k": "ui", "name": "x", "log": False, "lower": lo, "upper": lo + w, "default": lo}
    if d.chance(30):
        h["log"] = True
        h["lower"] = h["default"] = abs(lo) % 10**6 + 1
        h["upper"] = h["lower"] + w % 10**9 + 1
    return {"hp": h, "fr": [d.int(0, 2**32) for _ in range(d.int(1, 8))]}


def expected_vector(h, v):
    k = h["k"]
    if k == "cat":
        return [i for i, c in enumerate(h["choices"]) if c == v][0]
    if k == "ord":
        return [i for i, c in enumerate(h["sequence"]) if c == v][0]
    lo, up = float(h["lower"]), float(h["upper"])
    if h["log"]:
        return (math.log(v) - math.log(lo)) / (math.log(up) - math.log(lo))
    return (v - lo) / (up - lo)


def check(case):
    h = case["hp"]
    x = build_hp(h)
    k = h["k"]
    if k in FLOATS:
        vals = [unit_to_float(h, f / 4096) for f in case["fr"]] + [h["lower"], h["upper"]]
    elif size_of(h) <= 64:
        vals = domain(h)
    else:
        n = size_of(h)
        vals = [h["lower"] + f % n for f in case["fr"]] + [h["lower"], h["upper"]]
    seq = any(isinstance(v, list) for v in vals)
    vecs = []
    for v in vals:
        e = x.to_vector(v)
        ensure(np.ndim(e) == 0, f"encoding of {v!r} is not a scalar: {e!r}")
        ensure(bool(x.legal_vector(float(e))), f"encoding {e!r} of {v!r} is not legal")
        ensure(bool(x.legal_vector(np.array([e]))[0]), f"encoding {e!r} of {v!r}: array form")
        back = x.to_value(e)
        ensure(same_value(h, back, v), f"{v!r} -> {e!r} -> {back!r}")
        ensure(bool(np.all(x.legal_value(back))), f"decoded {back!r} is not legal")
        if k in FLOATS:
            ensure(type(back) is float, f"decoded a {type(back)}")
            ensure(h["lower"] - ftol(h) <= back <= h["upper"] + ftol(h), back)
        if k in INTS:
            ensure(type(back) is int, f"decoded a {type(back)}")
        if k not in NUMS:
            ensure(type(plain(back)) is type(v), f"{v!r} decoded as {back!r}")
        if k != "const":
            want = expected_vector(h, v)
            ensure(abs(float(e) - want) <= 1e-9, f"encoding of {v!r} is {e!r}, not {want!r}")
        vecs.append(float(e))
    # order
    if k in NUMS:
        s = sorted(zip(vals, vecs))
        for (v1, e1), (v2, e2) in zip(s, s[1:]):
            if k in INTS:
                ensure((v1 < v2) == (e1 < e2), f"order of {v1!r} {v2!r}: {e1!r} {e2!r}")
            else:
                ensure(v1 <= v2 and e1 <= e2 + 1e-12, f"order of {v1!r} {v2!r}")
    # arrays
    if not seq:
        arr = np.array(vals, dtype=object if k in ("cat", "ord", "const") else None)
        forms = [arr]
        if k != "const":
            forms += [list(vals), tuple(vals)]
        for a in forms:
            ev = x.to_vector(a)
            ensure(isinstance(ev, np.ndarray) and ev.shape == (len(vals),), f"shape {ev!r}")
            ensure(
                all(float(p) == q for p, q in zip(ev, vecs)),
                f"array encoding {ev!r} differs from single {vecs!r}",
            )
    dv = x.to_value(np.array(vecs, dtype=float))
    ensure(len(dv) == len(vals), "decoded length")
    for p, q in zip(dv, vals):
        ensure(same_value(h, p, q), f"array decoding gives {p!r} for {q!r}")
        ensure(k in NUMS or type(plain(p)) is type(q), f"array decoding gives {p!r} for {q!r}")
    # every legal encoding decodes to a legal value, inverse to within rounding
    if k in FLOATS:
        ts = [f / 4096 for f in case["fr"]] + [0.0, 1.0]
        out = []
        for t in ts:
            v = x.to_value(t)
            ensure(bool(x.legal_value(v)), f"encoding {t!r} decodes to illegal {v!r}")
            ensure(bool(x.legal_vector(t)), f"{t!r} is not a legal encoding")
            ensure(abs(float(x.to_vector(v)) - t) <= 1e-9, f"{t!r} -> {v!r} -> {x.to_vector(v)!r}")
            out.append(v)
        for p, q in zip(x.to_value(np.array(ts)), out):
            ensure(float(p) == q, "array decoding of reals")
        ensure(abs(x.to_value(0.0) - h["lower"]) <= ftol(h), "lower end")
        ensure(abs(x.to_value(1.0) - h["upper"]) <= ftol(h), "upper end")
    ensure(abs(float(x.lower_vectorized) - min(vecs)) <= 1e-9 or k in ("cat", "ord", "const"),
           "lower encoding")
    if size_of(h) < 2:
        return None
    return [k + ("-log" if h.get("log") else "")]


PARTS = [part("any", gen, check, 6000), part("wide", gen_big, check, 2500)]
