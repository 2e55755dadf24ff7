"""C06: clauses mean the same in every evaluation form."""
from vp.lib import *

RULE = (
    "A case is a set of hyperparameters, up to 3 conditions and 3 forbidden clauses of every "
    "shape over them, and up to 6 assignments of lattice values in which any hyperparameter "
    "may be unset. Each clause is evaluated on the value dictionary, on the encoded vector and "
    "on the batch of all vectors, and compared to the reference model. Non-trivial: some "
    "clause is true for one assignment and false for another."
)
ASSUMPTIONS = [
    "real values that are within 1e-9 of a clause's value without being equal are not judged",
    "relations compare hyperparameters whose values are mutually comparable",
]


def gen(d):
    n = d.int(2, 5)
    nm = names(d, n)
    mix = ALL_MIX if d.chance(50) else PLAIN_MIX
    hps = [hp(d, nm[i], ALL_KINDS, small=d.chance(60), mixes=mix) for i in range(n)]
    conds = [condition(d, hps[0]["name"], hps[1:], nest=2, pconj=55) for _ in range(d.int(1, 3))]
    forbs = [forbidden(d, hps) for _ in range(d.int(1, 3))]
    asgs = []
    for _ in range(d.int(2, 6)):
        a = {}
        for h in hps:
            if not d.chance(15):
                a[h["name"]] = d.pick(lattice(h))
        asgs.append(a)
    # make clause values likely
    lits = []
    for c in conds:
        lits += [(x["parent"], x.get("value", x.get("values", [None])[0])) for x in literals(c)]
    for _ in range(d.int(0, 3)):
        n_, v = d.pick(lits)
        d.pick(asgs)[n_] = v
    if d.chance(30):  # a longer batch with repetitions
        asgs = [asgs[(i * 5 + i * i) % len(asgs)] for i in range(d.int(len(asgs), 25))]
    return {"hps": hps, "conds": conds, "forbs": forbs, "asgs": asgs}


def check(case):
    spec = {"hps": case["hps"], "conds": [], "forbs": []}
    m = Model(spec)
    cs = build_space(spec)
    vecs = np.stack([vec_of(cs, a) for a in case["asgs"]])
    seen = {}

    def judge(kind, j, obj, want, by_value, by_vector, by_array):
        batch = by_array(vecs.T.copy())
        ensure(len(batch) == len(vecs), f"{obj!r}: batch answer has length {len(batch)}")
        for i, a in enumerate(case["asgs"]):
            w = want(a)
            if w is None:
                continue
            seen.setdefault((kind, j), set()).add(w)
            for how, got in (
                ("values", by_value(dict(a))),
                ("vector", by_vector(vecs[i].copy())),
                ("batch", batch[i]),
            ):
                ensure(bool(got) == w, f"{obj!r} on {a!r} by {how}: {bool(got)}, expected {w}")
            one = by_array(vecs[i : i + 1].T.copy())
            ensure(bool(one[0]) == w, f"{obj!r} on {a!r} in a batch of one: {one!r}")

    for j, c in enumerate(case["conds"]):
        obj = build_cond(c, cs)
        obj.set_vector_idx(cs.index_of)
        judge("c", j, obj, lambda a, c=c: m.cond(c, a), obj.satisfied_by_value,
              obj.satisfied_by_vector, obj.satisfied_by_vector_array)
    for j, f in enumerate(case["forbs"]):
        obj = build_forb(f, cs)
        obj.set_vector_idx(cs.index_of)
        judge("f", j, obj, lambda a, f=f: m.forb(f, a), obj.is_forbidden_value,
              obj.is_forbidden_vector, obj.is_forbidden_vector_array)
    if not any(len(s) == 2 for s in seen.values()):
        return None
    labels = {c["op"] for c in case["conds"]} | {"f" + f["op"] for f in case["forbs"]}
    if any(len(a) < len(case["hps"]) for a in case["asgs"]):
        labels.add("partial")
    return sorted(labels)


PARTS = [part("clauses", gen, check, 5000)]
