"""C04: densities are consistent with the declared prior and between both forms."""
from scipy import stats

from vp.lib import *

RULE = (
    "A case is one hyperparameter and a list of points inside and outside its domain. Checked: "
    "sign, zero outside, value form = encoding form, array = single, ratios to the declared "
    "density computed with scipy, exact probabilities for choices, reported maximum. "
    "Non-trivial: at least two distinct points inside the domain."
)
ASSUMPTIONS = [
    "densities are compared on the encoding scale up to a common factor for normal/beta "
    "priors (the normalisation of discretised priors is the library's choice)",
    "relative tolerance 1e-7; log-scaled normal priors: only form agreement, sign, symmetry "
    "around and decrease away from the mode, and the reported maximum",
]


def gen(d):
    h = hp(d, "x", HP_KINDS, mixes=ALL_MIX)
    return {"hp": h, "fr": [d.int(0, 4096) for _ in range(d.int(2, 10))]}


def unit(h, v):
    lo, up = float(h["lower"]), float(h["upper"])
    if h["log"]:
        return (math.log(v) - math.log(lo)) / (math.log(up) - math.log(lo))
    return (v - lo) / (up - lo)


def reference(h):
    """A function of the encoding, up to a constant factor."""
    k = h["k"]
    if k in ("uf", "ui"):
        return lambda t: np.ones_like(t)
    if k in ("bf", "bi"):
        return stats.beta(h["alpha"], h["beta"]).pdf
    if h["log"]:
        return None
    rng = float(h["upper"]) - float(h["lower"])
    mu, sg = unit(h, h["mu"]), h["sigma"] / rng
    return lambda t: np.exp(-0.5 * ((t - mu) / sg) ** 2)


def rel(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-290)


def check(case):
    h = case["hp"]
    x = build_hp(h)
    k = h["k"]
    if k in FLOATS:
        vals = sorted({unit_to_float(h, f / 4096) for f in case["fr"]})
    elif size_of(h) <= 40:
        vals = domain(h)
    else:
        vals = sorted({h["lower"] + f * 977 % size_of(h) for f in case["fr"]})
    arr = np.empty(len(vals), dtype=object)
    arr[:] = vals
    if k in NUMS:
        arr = np.array(vals)
    vecs = np.array([float(x.to_vector(v)) for v in vals])
    pv = x.pdf_vector(vecs)
    pw = x.pdf_values(arr)
    ensure(pv.shape == (len(vals),) and pw.shape == (len(vals),), "shape of densities")
    for v, a, b in zip(vals, pv, pw):
        ensure(np.isfinite(a) and a >= 0, f"density of {v!r} is {a!r}")
        ensure(rel(a, b), f"density of {v!r}: by encoding {a!r}, by value {b!r}")
    for v, e, a in zip(vals, vecs, pv):
        ensure(rel(float(x.pdf_vector(np.array([e]))[0]), float(a)), f"single density of {v!r}")
    if k in NUMS or (k in ("cat", "ord") and not any(isinstance(v, list) for v in vals)):
        for v, a, b in zip(vals, pv, x.pdf_values(list(vals))):
            ensure(rel(a, b), f"list form density of {v!r}: {b!r} instead of {a!r}")
    # outside
    if k in NUMS:
        out = np.array([-0.25, 1.25, -1e-3, 1.001])
        if k in INTS and size_of(h) <= 2000:
            mids = (vecs[:-1] + vecs[1:]) / 2
            mids = [m for m in mids if not _is_legal_int(h, m)]
            out = np.concatenate([out, mids])
        z = x.pdf_vector(out)
        ensure(bool(np.all(z == 0)), f"density outside the domain: {out!r} -> {z!r}")
        if not h["log"]:
            rng = h["upper"] - h["lower"]
            bad = np.array([h["lower"] - rng, h["upper"] + rng], dtype=float)
            ensure(bool(np.all(x.pdf_values(bad) == 0)), "density of values outside")
        for v, a in zip(vals, pv):
            if k in ("uf", "ui"):
                ensure(a > 0, f"density of the legal {v!r} is zero")
    elif k in ("cat", "ord"):
        n = size_of(h)
        z = x.pdf_vector(np.array([-1.0, float(n), n + 3.0]))
        ensure(bool(np.all(z == 0)), f"density outside: {z!r}")
        for off in (-4e-14, 4e-14):  # encodings that stand for a choice up to rounding
            near = np.clip(vecs + off, 0, n - 1)
            ensure(np.array_equal(x.pdf_vector(near), pv), f"densities next to encodings {near!r}")
    # relation to the prior
    if k in ("cat", "ord"):
        w = h.get("weights") or [1.0] * len(vals)
        for v, a, p in zip(vals, pv, w):
            ensure(rel(float(a), p / sum(w)) or abs(a - p / sum(w)) < 1e-12,
                   f"density of {v!r} is {a!r}, not {p / sum(w)!r}")
        ensure(abs(float(np.sum(pv)) - 1) < 1e-9, "probabilities do not add up to one")
    elif k in NUMS:
        ref = reference(h)
        if ref is not None:
            f = ref(vecs)
            i = int(np.argmax(f))
            for v, a, b in zip(vals, pv, f):
                ensure(
                    abs(float(a) * float(f[i]) - float(pv[i]) * float(b))
                    <= 1e-7 * float(pv[i]) * float(f[i]) + 1e-290,
                    f"density of {v!r} relative to {vals[i]!r} is {a / pv[i]!r}, "
                    f"expected {b / f[i]!r}",
                )
            ensure(pv[i] > 0 or f[i] < 1e-12, f"density zero at the most likely of {vals!r}")
        else:
            mode = min(max(unit(h, h["mu"]), 0.0), 1.0)
            s = sorted(zip(np.abs(vecs - mode), pv))
            for (d1, a), (d2, b) in zip(s, s[1:]):
                if d2 - d1 > 1e-6:
                    ensure(b <= a * (1 + 1e-9), "density grows away from the mode")
    # maximum
    top = float(x.get_max_density())
    if k not in ("ni", "bi"):
        ensure(np.isfinite(top) and top > 0, f"maximum density {top!r}")
        for v, a in zip(vals, pv):
            ensure(a <= top * (1 + 1e-9), f"density {a!r} of {v!r} exceeds the maximum {top!r}")
    if k in ("cat", "ord", "const"):
        ensure(rel(top, float(np.max(pv))), f"maximum {top!r}, but largest is {np.max(pv)!r}")
    if k in FLOATS:
        # attained: at the mode
        if k == "uf":
            t = 0.5
        elif k == "bf":
            a, b = h["alpha"], h["beta"]
            t = (a - 1) / (a + b - 2) if a + b > 2 else 0.5
        else:
            t = min(max(unit(h, h["mu"]), 0.0), 1.0)
        got = float(x.pdf_vector(np.array([t]))[0])
        ensure(rel(got, top, 1e-6), f"density at the mode {got!r}, reported maximum {top!r}")
    if len(vals) < 2:
        return None
    return [k + ("-log" if h.get("log") else "")]


def _is_legal_int(h, t):
    lo, up = float(h["lower"]), float(h["upper"])
    if h["log"]:
        v = math.exp(math.log(lo) + t * (math.log(up) - math.log(lo)))
    else:
        v = lo + t * (up - lo)
    return abs(v - round(v)) < 1e-3


PARTS = [part("any", gen, check, 4000)]
