"""C14: a grid lists every admissible grid point exactly once."""
import collections

from vp.lib import *
from ConfigSpace.util import generate_grid

RULE = (
    "A case is a space of uniform hyperparameters with conditions and forbidden clauses and a "
    "number of steps (1..6) per numeric one. The expected configurations are enumerated by the "
    "reference model over independently computed grids. Non-trivial: at least 4 grid points "
    "and a condition or forbidden clause."
)
ASSUMPTIONS = [
    "at most 1500 grid points",
    "grid points whose verdict hinges on rounding of a real value are not judged",
    "integer grid points are the evenly spaced ones rounded half to even",
]


def gen(d):
    spec = space(d, 1, 6, kinds=UNIFORM_KINDS, small=d.chance(70), mixes=ALL_MIX, forbs=(0, 3),
                 pcond=60)
    steps = {h["name"]: d.int(1, 6) for h in spec["hps"] if h["k"] in NUMS}
    return {"spec": spec, "steps": steps, "extra": d.chance(20)}


def grid_of(h, k):
    """Exact ends; the ends of log-scaled reals are off by less than the model can
    tell, so that clauses about exactly these values are not judged."""
    lo, up = h["lower"], h["upper"]
    out = []
    for i in range(k):
        t = i / (k - 1 or 1)
        if h["log"]:
            v = math.exp(math.log(lo) * (1 - t) + math.log(up) * t)
            if h["k"] in FLOATS and i in (0, k - 1):
                v = lo * (1 + 1e-13) if i == 0 else up * (1 - 1e-13)
        else:
            v = lo + (up - lo) * i / (k - 1 or 1)
        out.append(v)
    if h["k"] in INTS:
        out = sorted({int(round(v)) for v in out})
    return out


def check(case):
    spec, steps = case["spec"], case["steps"]
    m = Model(spec)
    grids = {n: grid_of(h, steps[n]) if h["k"] in NUMS else domain(h) for n, h in m.hps.items()}
    want = m.enumerate(grids, limit=1500)
    if want is None:
        raise Skip
    cs = build_space(spec)
    num = dict(steps)
    if case["extra"]:
        num["no such"] = 3
    got = generate_grid(cs, num) if num else generate_grid(cs)

    def index(n, v):
        g = grids[n]
        h = m.hps[n]
        for i, x in enumerate(g):
            if h["k"] in FLOATS:
                if abs(x - v) <= 2e-13 + 1e-9 * max(abs(v), 0 if h["log"] else h["upper"] - h["lower"]):
                    return i
            elif same_value(h, x, v):
                return i
        raise Violation(f"{n}={v!r} is not on the grid {g!r}")

    def k(a):
        return tuple(sorted((n, index(n, v)) for n, v in a.items()))

    g = collections.Counter()
    for c in got:
        a = asg_of(c)
        p = m.problems(a)
        ensure(not p, f"grid point {a!r}: {p}")
        c.check_valid_configuration()
        for n, v in a.items():
            if m.hps[n]["k"] in FLOATS:  # the bounds themselves
                h = m.hps[n]
                i = index(n, v)
                if i in (0, len(grids[n]) - 1):
                    b = h["lower"] if i == 0 else h["upper"]
                    ensure(abs(v - b) <= 1e-13 + 1e-14 * abs(b), f"{n}={v!r} instead of {b!r}")
        g[k(a)] += 1
    for a in want:
        ensure(g[k(a)] >= 1, f"grid point {a!r} is missing")
        ensure(g[k(a)] == 1, f"grid point {a!r} occurs {g[k(a)]} times")
    ensure(len(got) == len(want), f"{len(got)} grid points, expected {len(want)}")
    roots = [n for n in steps if n not in m.conds]
    if roots:
        less = {x: s for x, s in steps.items() if x != roots[0]}
        ensure(raises(lambda: generate_grid(cs, less), ValueError), f"no steps for {roots[0]}")
    if len(want) < 4:
        return None
    return kinds_label(spec) or None


PARTS = [part("grid", gen, check, 2500)]
