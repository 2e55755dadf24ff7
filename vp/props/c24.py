"""C24: restoring value types of a stringified configuration is exact."""
from vp.lib import *
from ConfigSpace.util import fix_types

RULE = (
    "A case is a space of uniform, categorical, ordered and constant hyperparameters, a valid "
    "configuration, the subset of its values written as text, and optionally one value replaced "
    "by text that matches nothing. The restored values are compared with the originals by value "
    "and by type. Non-trivial: at least two values written as text of which one is not a text "
    "originally."
)
ASSUMPTIONS = ["a choice whose text also is the text of another choice is expected to be refused"]


def gen(d):
    spec = space(d, 1, 7, kinds=UNIFORM_KINDS, small=d.chance(30), mixes=LIST_MIX, forbs=(0, 1), pcond=40)
    asg = valid_assignment(d, spec)
    names_ = sorted(asg)
    junk = None
    if d.chance(20):
        junk = [d.pick(names_), d.pick(["junk", "", "1.2.3", "x y", "--1"])]
    return {"spec": spec, "asg": asg, "text": d.subset(names_, 0, len(names_)), "junk": junk,
            "extra": d.chance(20), "drop": d.pick(names_) if d.chance(20) else None,
            "source": d.pick(["values", "sample"])}


def kind(v):
    return "num" if isnum_(v) else type(v).__name__


def isnum_(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def check(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    asg = case["asg"]
    text = set(case["text"])
    if case["source"] == "sample":
        asg = asg_of(cs.sample_configuration())
        text = {n for n in asg if n in text or len(n) % 2}
    # values as the library itself hands them out
    cfg = make(cs, asg)
    asg = {n: cfg[n] for n in asg}
    given = {n: str(v) if n in text else v for n, v in asg.items()}
    if case["drop"] in given:
        del given[case["drop"]]
    if case["extra"]:
        given["no such name"] = "5"
    junk = case["junk"]
    bad = None
    if junk and junk[0] in given:
        given[junk[0]] = junk[1]
        h = m.hps[junk[0]]
        bad = h["k"] in NUMS or not any(str(x) == junk[1] for x in domain(h))
    clash = False
    for n, v in given.items():
        if n in m.hps and m.hps[n]["k"] not in NUMS and v is not None:
            clash |= sum(str(x) == str(v) for x in domain(m.hps[n])) > 1
    if bad or clash:
        ensure(raises(lambda: fix_types(dict(given), cs), ValueError), f"{given!r} accepted")
        return ["refused"]
    got = fix_types(dict(given), cs)
    ensure(set(got) == set(given), f"names {sorted(got)!r}")
    for n, v in got.items():
        if n not in m.hps:
            ensure(v == "5", "the value of an unknown name has changed")
            continue
        if junk and n == junk[0]:
            continue
        h = m.hps[n]
        want = plain(asg[n])
        v = plain(v)
        ensure(same_attr(v, want), f"{n}: {given[n]!r} became {v!r}, originally {want!r}")
        if h["k"] in FLOATS:
            ensure(isinstance(v, float), f"{n}: {v!r} is a {type(v)}")
        elif h["k"] in INTS:
            ensure(isinstance(v, int), f"{n}: {v!r} is a {type(v)}")
        else:
            ensure(any(type(v) is type(x) and v == x for x in domain(h)), f"{n}: {v!r} is a {type(v)}")
    again = fix_types(dict(got), cs)
    ensure(all(same_attr(again[n], got[n]) and type(again[n]) is type(got[n]) for n in got),
           "restored values change when restored again")
    if not case["extra"] and case["drop"] is None and not junk:
        ensure(make(cs, got) == cfg, "the restored configuration is not equal to the original")
    if len(text) < 2 or all(isinstance(asg[n], str) for n in text):
        return None
    return sorted({m.hps[n]["k"] for n in text})


PARTS = [part("restore", gen, check, 6000)]
