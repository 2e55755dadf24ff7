"""C02: legality checks accept exactly the declared domain."""
from vp.lib import *

RULE = (
    "A case is one hyperparameter and a list of candidate values/encodings: members, points "
    "just outside the bounds, fractions, foreign types, encodings on and between the legal "
    "points. Non-trivial: at least one legal and one illegal candidate."
)
ASSUMPTIONS = [
    "candidates closer than 1e-6 (relative to the range) to a bound but not equal to it, and "
    "fractions closer than 1e-2 (0.5 beyond a million) to a whole number, are not used (tolerances are by design)",
]
FOREIGN = ["str", "strnum", "none", "list", "nan", "inf", "-inf", "obj"]


def gen(d):
    h = hp(d, "x", HP_KINDS, mixes=LIST_MIX)
    n = d.int(2, 10)
    kinds = ["in", "below", "above", "frac", "foreign", "npint", "npfloat", "near"]
    cands = [[d.pick(kinds), d.int(0, 4096)] for _ in range(n)]
    vecs = [[d.pick(["in", "below", "above", "between", "nan"]), d.int(0, 4096)]
            for _ in range(d.int(1, 8))]
    return {"hp": h, "cands": cands, "vecs": vecs}


def gen_big(d):
    lo = d.int(-(10**9), 10**9)
    w = d.int(1, 10**9)
    h = {"k": "ui", "name": "x", "log": False, "lower": lo, "upper": lo + w, "default": lo}
    kinds = ["in", "below", "above", "frac", "npint", "npfloat"]
    return {
        "hp": h,
        "cands": [[d.pick(kinds), d.int(0, 2**31)] for _ in range(d.int(2, 8))],
        "vecs": [],
    }


def member(h, i):
    if h["k"] in FLOATS:
        return unit_to_float(h, (i % 4097) / 4096)
    if h["k"] in INTS:
        return h["lower"] + i % size_of(h)
    return domain(h)[i % size_of(h)]


def candidate(h, kind, i):
    """(value, expected legality)"""
    num = h["k"] in NUMS
    if kind == "in":
        v = member(h, i)
        return v, True
    if kind == "foreign":
        f = FOREIGN[i % len(FOREIGN)]
        v = {
            "str": "no such value", "strnum": str(member(h, i)) + " ", "none": None,
            "list": ["no such value"], "nan": math.nan, "inf": math.inf, "-inf": -math.inf,
            "obj": object(),
        }[f]  # fmt: skip
        if f == "list":
            return None
        if f == "none" and not num and None in domain(h):
            return v, True
        return v, False
    if num:
        lo, up = h["lower"], h["upper"]
        rng = up - lo
        if kind == "below":
            d = (1 + i % 7) if h["k"] in INTS else rng * (1e-3 * (1 + i % 1000))
            return lo - d, False
        if kind == "above":
            d = (1 + i % 7) if h["k"] in INTS else rng * (1e-3 * (1 + i % 1000))
            return up + d, False
        if kind == "near":
            # just outside, on a scale clearly above the rounding of the code
            if h["k"] in INTS:
                return (lo - 0.5, False) if i % 2 else (up + 0.5, False)
            e = max(rng, abs(lo), abs(up)) * 1e-6
            return (lo - e, False) if i % 2 else (up + e, False)
        if kind == "frac":
            if h["k"] in INTS:
                v = member(h, i)
                big = max(abs(h["lower"]), abs(h["upper"])) > 10**6
                return v + (0.5 if big else [0.5, 0.25, 0.75, 0.01, 0.99][i % 5]), False
            return member(h, i), True
        if kind == "npint":
            v = int(member(h, i)) if h["k"] in INTS else int(math.floor(member(h, i)))
            return np.int64(v), legal(h, v)
        if kind == "npfloat":
            return np.float64(member(h, i)), True
        raise AssertionError(kind)
    dom = domain(h)
    if kind in ("npint", "npfloat", "near"):
        v = member(h, i)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return v, True
        return (np.float64(v) if isinstance(v, float) else np.int64(v)), True
    if kind == "frac":
        v = 0.123 + i
        return v, v in dom
    if kind == "below":
        v = -1000 - i
        return v, v in dom
    v = f"other{i}"
    return v, v in dom


def vec_candidate(h, kind, i):
    """(encoding, expected legality)"""
    k = h["k"]
    if kind == "nan":
        return None
    if k in NUMS:
        if kind == "below":
            return -0.01 * (1 + i % 300), False
        if kind == "above":
            return 1 + 0.01 * (1 + i % 300), False
        if k in FLOATS:
            return (i % 4097) / 4096, True
        n = size_of(h)
        if n > 4000:
            return None
        if h["log"]:
            lo, up = math.log(h["lower"]), math.log(h["upper"])
            if kind == "in":
                return (math.log(h["lower"] + i % n) - lo) / (up - lo), True
            return (math.log(h["lower"] + i % (n - 1) + 0.5) - lo) / (up - lo), False
        if kind == "in":
            return (i % n) / (n - 1), True
        return (i % (n - 1) + [0.5, 0.3, 0.7, 0.05][i % 4]) / (n - 1), False
    if k == "const":
        return None
    n = size_of(h)
    if kind == "in":
        return float(i % n), True
    if kind == "below":
        return float(-1 - i % 3), False
    if kind == "above":
        return float(n + i % 3), False
    return i % n + 0.5 if i % n + 1 < n else -0.5, False


def has_lists(h):
    return h["k"] in ("cat", "ord", "const") and any(isinstance(v, list) for v in domain(h))


def check(case):
    h = case["hp"]
    x = build_hp(h)
    k = h["k"]
    verdicts = set()
    numeric, objects = [], []
    for kind, i in case["cands"]:
        c = candidate(h, kind, i)
        if c is None:
            continue
        v, want = c
        verdicts.add(want)
        got = x.legal_value(v)
        ensure(np.ndim(got) == 0, f"legal_value({v!r}) is {got!r}")
        ensure(bool(got) == want, f"legal_value({v!r}) is {bool(got)}, expected {want}")
        if isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
            numeric.append((v, want))
        # numpy scalars cannot be compared to lists, as in numpy itself
        objects.append((plain(v) if has_lists(h) else v, want))
    if k in NUMS and numeric:
        for form in (np.array([v for v, _ in numeric], dtype=float), [v for v, _ in numeric]):
            got = x.legal_value(form)
            ensure(len(got) == len(numeric), "mask length")
            for (v, want), g in zip(numeric, got):
                ensure(bool(g) == want, f"array legality of {v!r} is {g}, expected {want}")
    if k not in ("cat", "ord") and objects:
        a = np.empty(len(objects), dtype=object)
        a[:] = [v for v, _ in objects]
        forms = [a]
        if not isinstance(h.get("value"), list):  # there, a list is one value
            forms += [[v for v, _ in objects], tuple(v for v, _ in objects)]
        for form in forms:
            got = x.legal_value(form)
            ensure(len(got) == len(objects), "mask length")
            for (v, want), g in zip(objects, got):
                ensure(bool(g) == want, f"legality of {v!r} in {form!r} is {g}, expected {want}")
    if k in ("cat", "ord") and objects:
        a = np.empty(len(objects), dtype=object)
        a[:] = [v for v, _ in objects]
        got = x.legal_value(a)
        ensure(len(got) == len(objects), "mask length")
        for (v, want), g in zip(objects, got):
            ensure(bool(g) == want, f"array legality of {v!r} is {g}, expected {want}")
        seq = domain(h)
        if not any(isinstance(v, list) for v in seq):
            got = x.legal_value([*seq, "definitely not"])
            ensure([bool(g) for g in got] == [True] * len(seq) + [False], f"list form {got}")
    vs = []
    for kind, i in case["vecs"]:
        c = vec_candidate(h, kind, i)
        if c is None:
            continue
        v, want = c
        verdicts.add(want)
        vs.append((v, want))
        got = x.legal_vector(v)
        ensure(bool(got) == want, f"legal_vector({v!r}) is {bool(got)}, expected {want}")
        ensure(bool(x.legal_vector(np.float64(v))) == want, "numpy scalar encoding")
    if vs:
        got = x.legal_vector(np.array([v for v, _ in vs]))
        for (v, want), g in zip(vs, got):
            ensure(bool(g) == want, f"array legality of encoding {v!r} is {g}")
    ensure(not x.legal_vector(math.nan), "NaN is a legal encoding")
    ensure(not x.legal_vector("0"), "a string is a legal encoding")
    ensure(bool(x.legal_value(x.default_value)), "the default is illegal")
    if k == "const":
        e = float(x.to_vector(h["value"]))
        ensure(bool(x.legal_vector(e)) and not x.legal_vector(e + 1), "constant encoding")
        ensure(not x.legal_vector(e + 0.5), "constant encoding")
    if len(verdicts) < 2:
        return None
    return [k + ("-log" if h.get("log") else "")]


PARTS = [part("any", gen, check, 6000), part("wide", gen_big, check, 2000)]
