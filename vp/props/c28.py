"""C28: equal seeds give equal results, also for copies, pickles and other processes."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from vp.env import ROOT
from vp.lib import *
from ConfigSpace import util

RULE = (
    "A case is a space and a sequence of requests (samples of various sizes, neighbourhoods, "
    "reseeding). A twin runs the same requests; deep copies and unpickled copies taken after a "
    "drawn number of requests run the rest; all outputs must be the same. Part 'process' repeats "
    "this in a process with another hash seed. Non-trivial: at least one sample with more than "
    "one possible outcome."
)
ASSUMPTIONS = ["same platform and library versions in all processes"]


def gen_ops(d, lo=2, hi=7):
    out = []
    for _ in range(d.int(lo, hi)):
        s = d.pick([0, 0, 1, 5, 11, 2**31])
        out.append(d.weighted([
            (["sample", None], 3), (["sample", 1], 1), (["sample", 2], 2), (["sample", 7], 2),
            (["sample", 30], 1), (["seed", s], 2), (["default"], 1),
            (["exchange", s], 2), (["random", s], 1), (["hp", s], 2),
        ]))
    return out


def gen(d):
    spec = space(d, 1, 6, small=d.chance(60), mixes=LIST_MIX, forbs=(0, 3), pcond=55)
    ops = gen_ops(d)
    return {"spec": spec, "ops": ops, "cut": d.int(0, len(ops)), "seed": d.seed(),
            "cut2": d.int(0, len(ops))}


def ident(c):
    return [[n, repr_val(v)] for n, v in c.items()] + [[repr(x) for x in c.get_array().tolist()]]


def perform(cs, op):
    """The outcome of a request in a comparable form."""
    if op[0] == "sample":
        out = cs.sample_configuration() if op[1] is None else cs.sample_configuration(op[1])
        return [ident(c) for c in (out if isinstance(out, list) else [out])]
    if op[0] == "seed":
        return cs.seed(op[1])
    if op[0] == "default":
        return ident(cs.get_default_configuration())
    if op[0] == "exchange":
        c = cs.get_default_configuration()
        out = []
        for x in util.get_one_exchange_neighbourhood(c, seed=op[1], num_neighbors=2):
            out.append(ident(x))
            if len(out) >= 12:
                break
        return out
    if op[0] == "random":
        if cs.estimate_size() < 30:
            return None
        try:
            return ident(util.get_random_neighbor(cs.get_default_configuration(), op[1]))
        except ValueError as e:
            return type(e).__name__
    out = []
    for n in cs:
        x = cs[n]
        v = x.default_value
        out.append([repr_val(plain(z)) for z in x.sample_value(3, seed=rs(op[1]))])
        out.append([repr_val(plain(z)) for z in x.neighbors_values(v, 3, seed=rs(op[1]))])
        out.append([repr_val(plain(z)) for z in x.rvs(2, random_state=op[1])])
        out.append(repr_val(plain(x.rvs(random_state=op[1]))))
    return out


def check(case):
    spec, ops = case["spec"], case["ops"]
    cs, twin = build_space(spec), build_space(spec)
    cs.seed(case["seed"]), twin.seed(case["seed"])
    copies = []
    for i in range(len(ops) + 1):
        if i == case["cut"]:
            copies.append((i, "deep copy", copy.deepcopy(cs)))
        if i == case["cut2"]:
            copies.append((i, "unpickled space", pickle.loads(pickle.dumps(cs))))
            if copies[0][0] <= i:
                k, _, c = copies[0]
                c = copy.deepcopy(c)  # a copy of a copy
                for o in ops[k:i]:
                    perform(c, o)
                copies.append((i, "copy of a copy", c))
        if i < len(ops):
            a, b = perform(cs, ops[i]), perform(twin, ops[i])
            ensure(a == b, f"{ops[i]}: {a!r}, the twin gives {b!r}")
    done = {}
    for k, what, c in copies:
        ensure(c == cs and cs == c, f"the {what} differs from its source")
        ensure(list(c) == list(cs), f"order of the {what}")
        ensure(repr(c) == repr(cs), f"text of the {what}")
        ensure(c.name == cs.name and c.meta == cs.meta, f"name or meta of the {what}")
    for k, what, c in copies:
        # reference: a fresh space that has run the same requests
        ref = build_space(spec)
        ref.seed(case["seed"])
        for i, o in enumerate(ops):
            b = perform(ref, o)
            if i >= k:
                a = perform(c, o)
                ensure(a == b, f"{what}, request {o}: {a!r}, the source gives {b!r}")
        a, b = perform(c, ["sample", 5]), perform(ref, ["sample", 5])
        ensure(a == b, f"{what}: next samples {a!r}, the source gives {b!r}")
        done[what] = True
    # no state shared: the source still continues like the twin
    before = repr(cs)
    for _, what, c in copies:
        c.add(build_hp({"k": "const", "name": "brand new", "value": 1}))
        ensure(c != cs, f"equal after an addition to the {what}")
        c[list(c)[0]].meta = {"changed": True}
    ensure(cs == twin and repr(cs) == before and "brand new" not in cs, "a copy shares state")
    a, b = perform(cs, ["sample", 6]), perform(twin, ["sample", 6])
    ensure(a == b, f"next samples {a!r}, the twin gives {b!r}")
    # requests with a seed of their own do not depend on what was asked before
    for o in (["hp", 0], ["exchange", 5], ["hp", 6], ["hp", 0], ["exchange", 0], ["default"]):
        a, b = perform(cs, o), perform(build_space(spec), o)
        ensure(a == b, f"{o}: {a!r}, a fresh space gives {b!r}")
    # reseeding restarts
    s = case["seed"] % 3 * 9
    cs.seed(s)
    a = [perform(cs, o) for o in ops if o[0] == "sample"]
    cs.seed(s)
    b = [perform(cs, o) for o in ops if o[0] == "sample"]
    ensure(a == b, "reseeding does not restart the sequence")
    fresh = build_space({**spec, "seed": s})
    b = [perform(fresh, o) for o in ops if o[0] == "sample"]
    ensure(a == b, "seeding differs from being constructed with the seed")
    # configurations
    for c in (cs.get_default_configuration(), *cs.sample_configuration(2)):
        for how, e in (("deep copy", copy.deepcopy(c)), ("copy", copy.copy(c)),
                       ("unpickled", pickle.loads(pickle.dumps(c)))):
            ensure(e == c and c == e and hash(e) == hash(c), f"{how} of a configuration differs")
            ensure(ident(e) == ident(c), f"{how} of a configuration: {ident(e)!r}, source {ident(c)!r}")
            e.check_valid_configuration()
        e = copy.deepcopy(c)
        old = ident(c)
        m = Model(spec)
        for h in spec["hps"]:
            if h["name"] in e:
                try:
                    e[h["name"]] = lattice(h)[-1]
                except ValueError:
                    pass
        ensure(ident(c) == old, "editing a deep copy changes the configuration")
        _ = m
    for n in cs:
        x = cs[n]
        for y in (copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
            ensure(x == y and y == x, f"copy of {x!r}: {y!r}")
            ensure([repr_val(plain(v)) for v in x.sample_value(5, seed=rs(1))]
                   == [repr_val(plain(v)) for v in y.sample_value(5, seed=rs(1))], "samples of a copy")
            ensure(x.meta == y.meta, "meta of a copy")
    for xs in (cs.conditions, cs.forbidden_clauses):
        for x in xs:
            for y in (copy.deepcopy(x), copy.copy(x), pickle.loads(pickle.dumps(x))):
                ensure(x == y and y == x, f"copy of {x!r}: {y!r}")
    if not any(o[0] == "sample" for o in ops) or Model(spec).n_full() < 2:
        return None
    return [*done, *kinds_label(spec), *("cut %s" % ("end" if case["cut"] == len(ops) else "before"),)]


# ----------------------------------------------------------------- other processes
def gen_process(d):
    return {"items": [gen(d) for _ in range(d.int(3, 6))], "hash": d.int(0, 1000)}


def run_items(items, pickles=None):
    """What a process makes of the items: outputs, and pickles taken half way (or the
    outputs of those handed over)."""
    out, half = [], []
    for i, it in enumerate(items):
        cs = build_space(it["spec"])
        cs.seed(it["seed"])
        res = []
        for k, o in enumerate(it["ops"]):
            if pickles is None and k == it["cut"] % len(it["ops"]):
                half.append(base64.b64encode(pickle.dumps([cs, cs.get_default_configuration()])).decode())
            res.append(perform(cs, o))
        res.append([repr(cs), list(cs), [repr(x) for x in cs.conditions],
                    [repr(x) for x in cs.forbidden_clauses], cs.to_serialized_dict()])
        if pickles is not None:
            other, cfg = pickle.loads(base64.b64decode(pickles[i]))
            res.append([perform(other, o) for o in it["ops"][it["cut"] % len(it["ops"]):]])
            res.append([other == cs, cs == other, cfg == cs.get_default_configuration(),
                        hash(cfg) == hash(cs.get_default_configuration())])
        out.append(res)
    return json.loads(json.dumps(out, default=repr)), half


def check_process(case):
    items = case["items"]
    here, half = run_items(items)
    env = {**os.environ, "PYTHONHASHSEED": str(case["hash"] + 1), "OMP_NUM_THREADS": "1",
           "PYTHONPATH": ROOT}
    p = subprocess.run([sys.executable, "-m", "vp.props.c28"],
                       input=json.dumps({"items": items, "pickles": half}), text=True,
                       capture_output=True, cwd=ROOT, env=env, check=False)
    ensure(p.returncode == 0, f"fails in another process: {p.stderr[-600:]}")
    there = json.loads(p.stdout.splitlines()[-1])
    for it, a, b in zip(items, here, there):
        ensure(a == b[:len(a)], f"{it['spec']!r}: {a!r} here, {b!r} in another process")
        k = it["cut"] % len(it["ops"])
        ensure(a[k:len(it["ops"])] == b[-2], "an unpickled space continues differently elsewhere")
        ensure(b[-1] == [True] * 4, f"pickles differ from their source elsewhere: {b[-1]}")
    return ["process"]


PARTS = [part("twins", gen, check, 1500), part("process", gen_process, check_process, 35, 250)]

if __name__ == "__main__":
    job = json.load(sys.stdin)
    print(json.dumps(run_items(job["items"], job["pickles"])[0]))
