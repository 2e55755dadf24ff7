"""C38: a refused addition leaves the space as it was."""
from vp.lib import *
from ConfigSpace import (
    ConfigurationSpace,
    Constant,
    ForbiddenAndConjunction,
    OrConjunction,
)
from ConfigSpace.util import get_one_exchange_neighbourhood

RULE = (
    "A case is a space added in steps; between the steps, batches are added in which one item "
    "makes the library refuse (duplicate, unknown reference, second condition, cycle, forbidden "
    "default, not addable), surrounded by items that are fine. After each refusal the space "
    "must equal, and behave like, a twin that never saw it. Non-trivial: at least one refusal."
)
ASSUMPTIONS = ["the order inside the reported parents, children and conditions is left open",
               "nesting a whole space counts as one addition only as far as its own contents are refused"]

OPS = ["duplicate", "duplicate new", "unknown child", "unknown parent", "ambiguous", "cycle", "ring",
       "unknown forbidden", "unknown relation", "unknown in conjunction", "forbidden default",
       "not addable", "forbidden new default"]  # fmt: skip


def gen(d):
    spec = space(d, 2, 7, small=d.chance(60), mixes=ALL_MIX, forbs=(0, 3), pcond=60)
    bad = [[d.pick(OPS), [d.int(0, 999) for _ in range(6)]] for _ in range(d.int(1, 4))]
    return {"spec": spec, "bad": bad, "seed": d.seed(), "cut": [d.int(0, 99) for _ in range(4)],
            "retry": d.chance(50)}


def bad_batch(cs, done, op, r, n):
    """Items that are fine, and one that is not; None if this space has no such item."""
    pick = lambda xs, i: xs[r[i] % len(xs)]  # noqa: E731
    have = {c["child"]: c for c in done["conds"]}
    names_ = list(cs)
    dflt = dict(cs.get_default_configuration())
    free = [x for x in names_ if x not in have]
    new = [UniformIntegerHyperparameter(f"new{n}", 0, 9, default_value=4), Constant(f"const{n}", 1)]
    extra = UniformIntegerHyperparameter("not there", 0, 9)
    value = lambda x: cs[x].default_value  # noqa: E731
    a = pick(names_, 0)
    ok = [*new, EqualsCondition(new[1], new[0], 4), ForbiddenEqualsClause(new[0], 5)]
    if r[5] % 3 == 0:
        ok[2] = NotEqualsCondition(new[1], cs[a], value(a))
    if r[5] % 4 == 0:  # changes the depth of what is there
        ok.append(EqualsCondition(cs[pick(free, 1)], new[0], 4))
    if r[5] % 5 == 0:
        ok.append(ForbiddenAndConjunction(ForbiddenEqualsClause(new[0], 6), ForbiddenEqualsClause(cs[a], value(a))))
    touched = {c.child.name for c in ok if hasattr(c, "child")}
    if op == "duplicate":
        bad = [cs[a], Constant(a, 3), UniformFloatHyperparameter(a, 0, 1)][r[2] % 3]
    elif op == "duplicate new":
        bad = Constant(new[r[2] % 2].name, 1)
    elif op == "unknown child":
        bad = EqualsCondition(extra, cs[a], value(a))
    elif op in ("unknown parent", "unknown in conjunction"):
        cand = [x for x in free if x not in touched and x != a]
        if not cand:
            return None
        c = cs[pick(cand, 1)]
        bad = EqualsCondition(c, extra, 3)
        if op == "unknown in conjunction":
            good = EqualsCondition(c, new[0], 4)
            bad = OrConjunction(*([good, bad] if r[3] % 2 else [bad, good]))
    elif op == "ambiguous":
        if not have:
            return None
        bad = EqualsCondition(cs[pick(sorted(have), 1)], new[0], 4)
    elif op == "cycle":
        pairs = [(c, p) for c in sorted(have) for p in cond_parents(have[c]) if p not in have and p not in touched]
        if not pairs:
            return None
        c, p = pick(pairs, 1)
        bad = EqualsCondition(cs[p], cs[c], value(c))
    elif op == "ring":
        ring = [Constant(f"r{n}.{i}", 1) for i in range(2 + r[2] % 3)]
        bad = [*ring, *[EqualsCondition(ring[i], ring[i - 1], 1) for i in range(len(ring))]]
    elif op == "unknown forbidden":
        bad = ForbiddenInClause(extra, [3, 4])
        if r[2] % 2:
            bad = ForbiddenAndConjunction(ForbiddenEqualsClause(cs[a], value(a)), bad)
    elif op == "unknown relation":
        two = (extra, new[0]) if r[2] % 2 else (new[0], extra)
        bad = ForbiddenLessThanRelation(*two)
        if r[3] % 2:
            bad = ForbiddenAndConjunction(ForbiddenEqualsClause(cs[a], value(a)), bad)
    elif op == "forbidden default":
        act = [x for x in dflt if x not in touched]
        if not act:
            return None
        x = pick(act, 1)
        bad = ForbiddenEqualsClause(cs[x], dflt[x])
    elif op == "forbidden new default":
        bad = ForbiddenInClause(new[0], [4, 7])
    else:
        bad = pick([None, 3, 2.5], 1)
    k = r[4] % 4
    if k == 0:  # on its own, as far as it can be
        need = [] if op in ("duplicate", "unknown child", "forbidden default", "not addable", "ring") else new
        items = [*need, bad]
    else:
        at = r[3] % (len(ok) + 1)
        items = [*ok[:at], bad, *ok[at:]]
    return items, bad, ok


def same(cs, twin, case, done, what):
    ensure(cs == twin and twin == cs, f"{what}: {cs!r} is not the {twin!r} it was")
    ensure(repr(cs) == repr(twin), f"{what}: prints as {cs!r}, was {twin!r}")
    ensure(list(cs) == list(twin) and len(cs) == len(twin), f"{what}: names {list(cs)!r}")
    ensure(cs.to_serialized_dict() == twin.to_serialized_dict(), f"{what}: documents differ")
    ensure(list(cs.at) == list(twin.at) and dict(cs.index_of) == dict(twin.index_of), f"{what}: positions differ")
    for q in ("children_of", "parents_of", "child_conditions_of", "parent_conditions_of"):
        a, b = getattr(cs, q), getattr(twin, q)
        ensure({n: sorted(map(str, a[n])) for n in a} == {n: sorted(map(str, b[n])) for n in b}, f"{what}: {q} differ")
    a, b = cs.get_default_configuration(), twin.get_default_configuration()
    ensure(dict(a) == dict(b), f"{what}: default {dict(a)!r}, was {dict(b)!r}")
    out = []
    for s in (cs, twin):
        s.seed(case["seed"])
        cfgs = s.sample_configuration(4)
        near = list(get_one_exchange_neighbourhood(cfgs[0], seed=3))[:6] if done else []
        out.append(repr([c.get_array().tolist() for c in [*cfgs, *near]]))
    ensure(out[0] == out[1], f"{what}: samples or neighbours {out[0]}, were {out[1]}")


def check(case):
    spec = case["spec"]
    m = Model(spec)
    items = [("hps", h) for h in spec["hps"]] + [("conds", c) for c in spec["conds"]]
    items += [("forbs", f) for f in spec["forbs"]]
    cs, twin = ConfigurationSpace(), ConfigurationSpace()
    done = {"hps": [], "conds": [], "forbs": []}
    labels = []

    def put(some):
        for s in (cs, twin):
            batch, hps = [], {n: s[n] for n in s}
            for kind, x in some:
                if kind == "hps":
                    hps[x["name"]] = build_hp(x)
                    batch.append(hps[x["name"]])
                else:
                    batch.append((build_cond if kind == "conds" else build_forb)(x, hps))
            s.add(batch)
        for kind, x in some:
            done[kind].append(x)

    i = 0
    for n, (op, r) in enumerate(case["bad"]):
        j = min(len(items), max(1, i + case["cut"][n] % 6))
        put(items[i:j])
        i = j
        made = bad_batch(cs, done, op, r, n)
        if made is None:
            continue
        batch, bad, ok = made
        try:
            cs.add(batch)
        except (ValueError, TypeError):
            pass
        else:
            raise Violation(f"{op} accepted: {batch!r}")
        # the clauses that were there may not have been disturbed either
        same(cs, twin, case, done["hps"], f"after {op}")
        labels.append(op)
    put(items[i:])
    same(cs, twin, case, done["hps"], "at the end")
    conforms(cs, spec, [])
    if case["retry"] and labels and made is not None:
        # the rest of the last batch is still welcome, unless it collides with what came later
        mine = [x for x in ok if not hasattr(x, "child") or x.child.name.startswith("const")]
        cs.add(mine)
        ensure(len(cs) == len(spec["hps"]) + 2, f"{len(cs)} hyperparameters after adding {mine!r}")
        for c in cs.sample_configuration(5):
            c.check_valid_configuration()
        labels.append("retry")
    _ = m
    return labels or None


PARTS = [part("history", gen, check, 2200)]
