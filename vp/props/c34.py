"""C34: older spellings answer exactly like their replacements."""
import io
import json
import warnings

from vp.lib import *
from vp.props.c09 import illegal_value
from ConfigSpace import ConfigurationSpace, UnParametrizedHyperparameter, Constant, c_util, util
from ConfigSpace.read_and_write import json as old_json

RULE = (
    "A case is a hyperparameter with values, points, a number of neighbours and a spread; or a "
    "space with configurations (valid or not). Every published older spelling is called next to "
    "its replacement with equal arguments and equal random states, and against the value computed "
    "from the description where there is one. Non-trivial: more than one value, or a clause."
)
ASSUMPTIONS = ["older spellings whose name starts with an underscore are left open"]


def gen_hp(d):
    h = hp(d, "a", HP_KINDS + [("const", 1)], mixes=ALL_MIX)
    lat = lattice(h)
    return {"h": h, "v": d.pick(lat), "vs": [d.pick(lat) for _ in range(d.int(1, 4))],
            "bad": illegal_value(d, h), "u": d.pick([-0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 7.0]),
            "n": d.int(1, 6), "std": d.pick([None, 0.01, 0.2, 1.0]), "seed": d.seed()}


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def same_state(a, b):
    return a.randint(1 << 30) == b.randint(1 << 30)


def arr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.array_equal(a, b) if a.dtype == object
                                   else np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def check_hp(case):
    return quiet(lambda: _check_hp(case))


def _check_hp(case):
    h, v, seed = case["h"], case["v"], case["seed"]
    x = build_hp(h)
    # number of values
    ensure(x.get_size() == x.size, "get_size")
    if h["k"] not in FLOATS:
        ensure(x.get_size() == size_of(h), f"get_size {x.get_size()} for {h!r}")
    if h["k"] == "cat":
        ensure(x.num_choices == len(h["choices"]), "num_choices")
    if h["k"] == "ord":
        ensure(x.num_elements == len(h["sequence"]), "num_elements")
    # one sample
    r, s = rs(seed), rs(seed)
    for _ in range(3):
        a, b = x.sample(r), x.sample_value(seed=s)
        ensure(same_attr(a, b) and type(a) is type(b), f"sample {a!r}, sample_value {b!r}")
        ensure(legal(h, plain(a)), f"sample {a!r} of {h!r}")
    ensure(same_state(r, s), "sample uses the random state differently")
    # legality
    u = float(x.to_vector(v))
    for z in (v, case["bad"], *case["vs"]):
        ensure(bool(x.is_legal(z)) == bool(x.legal_value(z)) == legal(h, z), f"is_legal({z!r})")
    for z in (u, case["u"]):
        ensure(bool(x.is_legal_vector(np.float64(z))) == bool(x.legal_vector(np.float64(z))), f"is_legal_vector({z!r})")
    # densities: single and many
    p = x.pdf_values([v])
    ensure(float(x.pdf(v)) == float(p[0]), f"pdf({v!r}) {x.pdf(v)!r}, pdf_values {p!r}")
    many = np.empty(len(case["vs"]), dtype=object)
    many[:] = case["vs"]
    if h["k"] in NUMS:
        many = np.array(case["vs"], dtype=float if h["k"] in FLOATS else int)
    ensure(arr(x.pdf(many), x.pdf_values(many)), f"pdf of {many!r}")
    for z, q in zip(case["vs"], x.pdf(many)):
        ensure(float(x.pdf(z)) == float(q), f"pdf of {z!r} alone and in a list")
    # neighbours
    ensure(x.has_neighbors() == (x.size > 1), "has_neighbors")
    if h["k"] in NUMS:
        ensure(x.has_neighbors(), f"has_neighbors of {h!r}")
    else:
        ensure(x.has_neighbors() == (size_of(h) > 1), f"has_neighbors of {h!r}")
    for n in (case["n"], None):
        r, s = rs(seed), rs(seed)
        got = x.get_neighbors(np.float64(u), r, number=n, std=case["std"])
        want = x.neighbors_vectorized(np.float64(u), 4 if n is None else n, std=case["std"], seed=s)
        ensure(arr(got, want), f"get_neighbors {got!r}, neighbors_vectorized {want!r}")
        ensure(same_state(r, s), "get_neighbors uses the random state differently")
    ensure(arr(x.get_neighbors(np.float64(u), rs(seed), case["n"]),
               x.neighbors_vectorized(np.float64(u), case["n"], seed=rs(seed))), "get_neighbors by position")
    if h["k"] == "const":
        ensure(UnParametrizedHyperparameter is Constant or
               isinstance(UnParametrizedHyperparameter("a", h["value"]), Constant), "unparametrized")
    return [h["k"]] if x.size > 1 else None


def gen_space(d):
    spec = space(d, 1, 6, small=d.chance(60), mixes=LIST_MIX, forbs=(0, 3), pcond=60, nest=1)
    m = Model(spec)
    a = dict(valid_assignment(d, spec, m) or {})
    b = dict(a)
    for _ in range(d.int(0, 2)):
        h = d.pick(spec["hps"])
        if d.chance(50) and h["name"] in b:
            del b[h["name"]]
        else:
            b[h["name"]] = d.pick(lattice(h))
    return {"spec": spec, "a": a, "b": b, "full": full_assignment(d, spec), "indent": d.pick([0, 2, 7]),
            "swap": d.chance(50)}


def refusal(fn):
    try:
        fn()
    except ValueError as e:
        return type(e), getattr(getattr(e, "hyperparameter", None), "name", None)
    return None


def conj_old(x):
    if not hasattr(x, "components"):
        return
    ensure(x.get_descendant_literal_conditions() == x.dlcs, "literal conditions")
    ensure(list(x.get_children()) == [x.child], "get_children")
    ensure(list(x.get_parents()) == list(x.parents), "get_parents")
    ensure(list(x.get_children_vector()) == [x.child_vector_id], "get_children_vector")
    ensure(list(x.get_parents_vector()) == list(x.parent_vector_ids), "get_parents_vector")


def check_space(case):
    return quiet(lambda: _check_space(case))


def _check_space(case):
    spec = case["spec"]
    m = Model(spec)
    cs = build_space(spec)
    # built with the older calls
    old = ConfigurationSpace(name=spec.get("name"), seed=spec.get("seed"), meta=spec.get("meta"))
    hps = {h["name"]: build_hp(h) for h in spec["hps"]}
    conds = [build_cond(c, hps) for c in spec["conds"]]
    forbs = [build_forb(f, hps) for f in spec["forbs"]]
    if case["swap"]:
        got = old.add_hyperparameters(iter(list(hps.values())))
        ensure(list(got) == list(hps.values()), "add_hyperparameters returns something else")
        ensure(old.add_conditions(conds) == conds, "add_conditions returns something else")
        ensure(old.add_forbidden_clauses(forbs) == forbs, "add_forbidden_clauses returns something else")
    else:
        for x in hps.values():
            ensure(old.add_hyperparameter(x) is x, "add_hyperparameter returns something else")
        for x in conds:
            ensure(old.add_condition(x) is x, "add_condition returns something else")
        for x in forbs:
            ensure(old.add_forbidden_clause(x) is x, "add_forbidden_clause returns something else")
    ensure(old == cs and list(old) == list(cs), "not the same space")
    for x in old.conditions:
        conj_old(x)
    for x in old.forbidden_clauses:
        if hasattr(x, "components"):
            ensure(list(x.get_descendant_literal_clauses()) == list(x.dlcs), "literal clauses")
    # configurations
    for cfg in (cs.get_default_configuration(), *cs.sample_configuration(2), make(cs, case["a"])):
        dct = cfg.get_dictionary()
        ensure(type(dct) is dict and dct == dict(cfg) and list(dct) == list(cfg), "get_dictionary")
    v = vec_of(cs, case["b"])
    cfg = Configuration(cs, vector=v.copy())
    want = refusal(lambda: cfg.check_valid_configuration())
    for what, fn in (("space.check_configuration", lambda: cs.check_configuration(cfg)),
                     ("util.check_configuration", lambda: util.check_configuration(cs, v.copy())),
                     ("c_util.check_configuration", lambda: c_util.check_configuration(cs, v.copy())),
                     ("vector check", lambda: cs.check_configuration_vector_representation(v.copy()))):
        got = refusal(fn)
        ensure((got is None) == (want is None), f"{what}: {got}, check_valid_configuration: {want}")
    p = m.problems(case["b"])
    if p is not None:
        ensure(bool(p) == (want is not None), f"{case['b']!r}: {want}")
    # forbidden clauses on a vector
    full = vec_of(cs, case["full"])
    for asg, vec in ((case["full"], full), (case["b"], v)):
        want = m.forbidden(asg)
        got = bool(c_util.check_forbidden(cs.forbidden_clauses, vec.copy()))
        ensure(got == any(bool(f.is_forbidden_vector(vec)) for f in cs.forbidden_clauses), "check_forbidden")
        if want is not None:
            ensure(got == want, f"check_forbidden of {asg!r}: {got}")
    # changes of a vector
    if spec["hps"]:
        h = spec["hps"][len(case["b"]) % len(spec["hps"])]
        i = cs.index_of[h["name"]]
        base = vec_of(cs, case["a"])
        u = cs[h["name"]].to_vector(case["full"][h["name"]])
        if not np.isnan(base[i]):
            a = c_util.change_hp_value(cs, base.copy(), h["name"], u, i)
            b = util.change_hp_value(cs, base.copy(), h["name"], u, i)
            ensure(arr(a, b), "change_hp_value")
    # documents
    buf = io.StringIO()
    cs.to_json(buf, indent=case["indent"])
    text = old_json.write(cs, indent=case["indent"])
    ensure(text == buf.getvalue(), "json.write")
    buf = io.StringIO()
    cs.to_json(buf)
    ensure(json.loads(old_json.write(cs)) == json.loads(buf.getvalue()), "json.write without options")
    back = old_json.read(text)
    ensure(back == cs and back == ConfigurationSpace.from_json(io.StringIO(text)), "json.read")
    return kinds_label(spec) if spec["conds"] or spec["forbs"] else None


PARTS = [part("hyperparameters", gen_hp, check_hp, 3000), part("spaces", gen_space, check_space, 2000)]
