"""C32: numeric range helpers agree with their plain counterparts."""
from fractions import Fraction as F

from vp.lib import *
from ConfigSpace import functional as fn

RULE = (
    "A case is a set of arguments of one helper (starts, stops, steps, chunk sizes, centres, "
    "bounds, numbers of levels, points). Ranges are compared with plain ranges element by "
    "element; quantisation with exact rational arithmetic where the point is not within "
    "rounding of a boundary. Non-trivial: results with at least two elements."
)
ASSUMPTIONS = ["real results are compared with a relative accuracy of 1e-9 of the interval",
               "at least two levels"]


def gen_ranges(d):
    lo = d.int(-50, 50)
    n = d.int(1, 120)
    if d.chance(20):
        lo = d.pick([10**6, -10**9, 2**40])
    return {"lo": lo, "hi": lo + n, "step": d.pick([1, 1, 2, 3, 7, 200]), "chunk": d.pick([1, 2, 3, 5, 10, 64, 1000]),
            "at": d.int(0, n), "num": d.int(1, 90), "end": d.chance(50),
            "scale": d.pick([1.0, 0.1, 1e-3, 1e4])}


def check_ranges(c):
    lo, hi, step, chunk = c["lo"], c["hi"], c["step"], c["chunk"]
    # chunks
    out = list(fn.arange_chunked(lo, hi, step, chunk_size=chunk))
    want = list(range(lo, hi, step))
    ensure([int(v) for x in out for v in x] == want, f"chunks {out!r}, expected {want!r}")
    ensure(all(1 <= len(x) <= chunk for x in out), f"sizes of chunks {[len(x) for x in out]}")
    ensure(all(len(x) == chunk for x in out[:-1]), "a chunk that is not full")
    if step == 1:
        out = list(fn.arange_chunked(lo, hi, chunk_size=chunk))
        ensure([int(v) for x in out for v in x] == want, "without step")
    # evenly spaced reals
    a, b, num = lo * c["scale"], hi * c["scale"], c["num"]
    out = list(fn.linspace_chunked(a, b, num, chunk_size=chunk, endpoint=c["end"]))
    got = np.concatenate(out)
    want = np.linspace(a, b, num, endpoint=c["end"])
    if not (num == 1 and c["end"]):
        tol = 1e-9 * (b - a) + 1e-13 * max(abs(a), abs(b))
        ensure(got.shape == want.shape, f"{got.shape} points, expected {num}")
        ensure(np.all(np.abs(got - want) <= tol), f"{got!r}, expected {want!r}")
        ensure(all(1 <= len(x) <= chunk for x in out), f"sizes of chunks {[len(x) for x in out]}")
        ensure(sum(len(x) == chunk for x in out) >= len(out) - 1, "a chunk that is not full")
    # around a centre
    mid = lo + c["at"]
    got = list(fn.center_range(mid, lo, hi, step))
    below, above = list(range(mid - step, lo - 1, -step)), list(range(mid + step, hi + 1, step))
    want = []
    for i in range(max(len(below), len(above))):
        want += below[i:i + 1] + above[i:i + 1]
    ensure(got == want, f"centred range {got}, expected {want}")
    ensure(mid not in got and len(set(got)) == len(got), "centre or repetition")
    if step == 1:
        ensure(list(fn.center_range(mid, lo, hi)) == want, "without step")
    got = fn.split_arange(lo, hi, pivot=mid).tolist()
    ensure(got == [i for i in range(lo, hi) if i != mid], f"split range {got}")
    return ["chunks" if len(want) > chunk else "one chunk", "step" if step > 1 else "unit"]


def gen_quantize(d):
    s = d.pick([1, 0.1, 10, 1e-3])
    lo = d.int(-20, 20) * s
    up = lo + d.int(1, 50) * s
    if d.chance(40):
        lo, up = 0, 1
    bins = d.pick([2, 3, 4, 5, 7, 10, 33, 100, 999])
    return {"lo": lo, "up": up, "bins": bins, "xs": [d.int(0, 1000) for _ in range(d.int(2, 12))],
            "whole": d.chance(40)}


def check_quantize(c):
    lo, up, bins = c["lo"], c["up"], c["bins"]
    den = bins if c["whole"] else 1000
    units = sorted({F(x % (den + 1), den) for x in c["xs"]})
    xs = np.array([float(F(lo) + u * (F(up) - F(lo))) for u in units])
    xs = np.clip(xs, lo, up)
    w = float(up) - float(lo)
    tol = 1e-9 * w + 1e-13 * max(abs(lo), abs(up))
    got = fn.quantize(xs, bounds=(lo, up), bins=bins)
    ensure(got.shape == xs.shape, "shape")
    lv = (got - lo) / w * (bins - 1)
    ensure(np.all(np.abs(lv - np.rint(lv)) <= 1e-6), f"{got!r} are not among {bins} even levels")
    ensure(np.all(lv >= -1e-6) and np.all(lv <= bins - 1 + 1e-6), f"{got!r} outside {lo}..{up}")
    ensure(np.all(np.diff(got) >= -tol), f"not monotone: {xs!r} to {got!r}")
    ensure(np.all(np.abs(got - xs) <= w / (bins - 1) + tol), f"{xs!r} moved too far: {got!r}")
    again = fn.quantize(got, bounds=(lo, up), bins=bins)
    ensure(np.all(np.abs(again - got) <= tol), f"not idempotent: {got!r} to {again!r}")
    for u, g in zip(units, lv):
        t = u * bins
        if abs(t - round(t)) > F(1, 10**6):  # not on a boundary
            ensure(int(np.rint(g)) == min(t.__floor__(), bins - 1), f"level of {float(u)}: {g}")
    ends = fn.quantize(np.array([float(lo), float(up)]), bounds=(lo, up), bins=bins)
    ensure(abs(ends[0] - lo) <= tol and abs(ends[1] - up) <= tol, f"ends {ends!r}")
    for x, g in zip(xs, got):
        one = fn.quantize(np.float64(x), bounds=(lo, up), bins=bins)
        ensure(abs(float(one) - g) <= tol, f"single point {x}: {one}, in an array {g}")
    # all levels are used
    if bins <= 100:
        fine = lo + (np.arange(bins) + 0.5) / bins * w
        q = fn.quantize(fine, bounds=(lo, up), bins=bins)
        ensure(len(np.unique(np.rint((q - lo) / w * (bins - 1)))) == bins, "unused levels")
    # on a log scale
    a, b = 1.0, 1.0 + 0.5 * bins
    q = fn.quantize_log(xs, bounds=(lo, up), scale_slice=(a, b), bins=bins)
    orig = np.exp((q - lo) / w * (math.log(b) - math.log(a)) + math.log(a))
    lv = (orig - a) / (b - a) * (bins - 1)
    ensure(np.all(np.abs(lv - np.rint(lv)) <= 1e-5), f"{orig!r} are not among {bins} even levels")
    ensure(np.all(np.diff(q) >= -tol), "not monotone on a log scale")
    again = fn.quantize_log(q, bounds=(lo, up), scale_slice=(a, b), bins=bins)
    ensure(np.all(np.abs(again - q) <= 1e-8 * w + tol), "not idempotent on a log scale")
    x_orig = np.exp((xs - lo) / w * (math.log(b) - math.log(a)) + math.log(a))
    ensure(np.all(np.abs(orig - x_orig) <= (b - a) / (bins - 1) + 1e-6 * b), "moved too far on a log scale")
    if lo > 0:
        q1 = fn.quantize_log(xs, bounds=(lo, up), bins=bins)
        q2 = fn.quantize_log(xs, bounds=(lo, up), scale_slice=(lo, up), bins=bins)
        ensure(np.array_equal(q1, q2), "the default slice is not that of the bounds")
    # scaling
    un = fn.normalize(xs, bounds=(lo, up))
    ensure(np.all(np.abs(un - np.array([float(u) for u in units])) <= 1e-9 + 1e-13 * abs(lo) / w), f"normalised {un!r}")
    back = fn.scale(un, to=(lo, up))
    ensure(np.all(np.abs(back - xs) <= tol), f"scaling back {back!r}, originally {xs!r}")
    to = (-3.0, 4.5)
    r = fn.rescale(xs, (lo, up), to)
    ensure(np.all(np.abs(fn.rescale(r, to, (lo, up)) - xs) <= tol * 10), "rescaling there and back")
    ensure(np.all(np.abs(r - (un * 7.5 - 3.0)) <= 1e-8), "rescaling")
    ensure(np.array_equal(fn.rescale(xs, (lo, up), (lo, up)), xs), "rescaling to the same range")
    return [f"bins {'few' if bins < 10 else 'many'}", "unit" if (lo, up) == (0, 1) else "bounds"]


def gen_close(d):
    out = []
    for _ in range(d.int(1, 8)):
        base = d.pick([0, 1, -1, 5, 1000, -10**6, 10**9])
        off = d.pick([0.0, 1e-12, 1e-10, 3e-9, 1e-7, 1e-6, 1e-5, 3e-5, 1e-3, 0.1, 0.4, 0.5])
        out.append(base + off * d.pick([1, -1]))
    return {"xs": out, "atol": d.pick([None, 1e-9, 1e-6, 1e-3, 0.1]), "rtol": d.pick([None, 0.0, 1e-5])}


def check_close(c):
    xs = np.array(c["xs"], dtype=float)
    kw = {k: c[k] for k in ("atol", "rtol") if c[k] is not None}
    atol, rtol = c["atol"] if c["atol"] is not None else 1e-9, c["rtol"] if c["rtol"] is not None else 1e-5
    got = fn.is_close_to_integer(xs, **kw)
    for x, g in zip(xs, got):
        near = round(F(float(x)))
        dist = abs(F(float(x)) - near)
        lim = F(atol) + F(rtol) * abs(near)
        if abs(dist - lim) <= F(1, 10**9) * lim + F(1, 10**15) * (1 + abs(near)) and dist != 0:
            continue  # on the boundary
        ensure(bool(g) == (dist <= lim), f"{x!r} close to an integer: {g}")
        ensure(bool(fn.is_close_to_integer_single(np.float64(x), **kw)) == bool(g), f"{x!r} alone")
        ensure(bool(fn.is_close_to_integer(np.float64(x), **kw)) == bool(g), f"{x!r} as a scalar")
    return ["close"] if len(xs) > 1 else None


PARTS = [part("ranges", gen_ranges, check_ranges, 3000), part("quantise", gen_quantize, check_quantize, 3000),
         part("integers", gen_close, check_close, 1500)]
