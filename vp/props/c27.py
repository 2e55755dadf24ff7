"""C27: read-only operations change nothing."""
import copy
import io
import json
import pickle
import warnings

from vp.lib import *
from vp.props.c09 import illegal_value
from ConfigSpace import ConfigurationSpace, util
from ConfigSpace.read_and_write import pcs, pcs_new

RULE = (
    "A case is a space, some of its configurations and a sequence of up to 10 operations that "
    "only read (queries, legality checks, densities, neighbours, grids, serialisation, copying, "
    "comparisons, printing, refused assignments and validations). After each one the space and "
    "the configurations are compared with untouched twins; at the end the next samples are. "
    "Non-trivial: at least two different operations that ran through."
)
ASSUMPTIONS = ["values computed lazily for speed are not part of the observable state"]


def _hp(cs, i):
    names = list(cs)
    return cs[names[i % len(names)]]


def _lat(m, x, i):
    lat = lattice(m.hps[x.name])
    return lat[i % len(lat)]


def op_density(e, i, j):
    x = _hp(e.cs, i)
    vals = lattice(e.m.hps[x.name])[:6]
    x.pdf_values(vals)
    x.pdf_vector(np.array([float(x.to_vector(v)) for v in vals]))
    x.get_max_density()


def op_codec(e, i, j):
    x = _hp(e.cs, i)
    v = _lat(e.m, x, j)
    u = x.to_vector(v)
    x.to_value(u)
    x.to_value(np.array([u, u]))
    x.legal_value(v), x.legal_vector(float(u)), x.legal_vector(np.array([u, 2.5, np.nan]))
    x.legal_value([v, v]) if not isinstance(v, (list, bool)) else None
    x.legal_value(object())


def op_neighbors(e, i, j):
    x = _hp(e.cs, i)
    v = _lat(e.m, x, j)
    x.neighbors_values(v, 1 + j % 5, seed=rs(j))
    x.neighbors_vectorized(x.to_vector(v), 1 + i % 5, seed=rs(j))
    x.get_num_neighbors(v), x.has_neighbors()


def op_sample_hp(e, i, j):
    x = _hp(e.cs, i)
    x.sample_value(seed=rs(j)), x.sample_value(4, seed=rs(j)), x.sample_vector(3, seed=rs(i))
    x.rvs(2, random_state=j)


def op_convert(e, i, j):
    x = _hp(e.cs, i)
    for f in ("to_uniform", "to_float"):
        if hasattr(x, f):
            getattr(x, f)()
    y = x.copy()
    z = copy.deepcopy(x)
    pickle.loads(pickle.dumps(x))
    y.name = z.name = "renamed"
    repr(x), str(x), x == y, x != y, x == 3


def op_queries(e, i, j):
    cs = e.cs
    n = list(cs)[i % len(cs)]
    cs.conditions, cs.forbidden_clauses, cs.conditional_hyperparameters
    cs.unconditional_hyperparameters, cs.children_of[n], cs.parents_of[n]
    cs.child_conditions_of[n], cs.parent_conditions_of[n], cs.index_of[n], cs.at[i % len(cs)]
    list(cs.items()), list(cs.values()), len(cs), n in cs, "zz" in cs, cs.get("zz"), cs.estimate_size()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cs.get_hyperparameters(), cs.get_conditions(), cs.get_forbiddens()
        cs.get_all_conditional_hyperparameters(), cs.get_children_of(n), cs.get_parents_of(n)
    return raises(lambda: cs["zz"], KeyError)


def op_print(e, i, j):
    repr(e.cs), str(e.cs)
    for c in e.cfgs:
        repr(c), str(c)
    for x in (*e.cs.conditions, *e.cs.forbidden_clauses, *e.cs.values()):
        repr(x), str(x), x.to_dict() if hasattr(x, "to_dict") else None


def op_compare(e, i, j):
    e.cs == e.twin, e.cs != e.twin, e.cs == 1
    for c in e.cfgs:
        [c == o for o in e.cfgs], hash(c), c == 1, c != e.cfgs[0]
    for xs in (e.cs.conditions, e.cs.forbidden_clauses, list(e.cs.values())):
        [x == y for x in xs for y in xs]
    for a in e.cs.conditions:
        [a.equivalent_condition_on_parent(b) for b in e.cs.conditions]


def op_default(e, i, j):
    c = e.cs.get_default_configuration()
    edit(e, c, i, j)  # of something returned, which must be independent


def edit(e, c, i, j):
    x = _hp(e.cs, i)
    if x.name in c:
        try:
            c[x.name] = _lat(e.m, x, j)
        except ValueError:
            pass


def op_dict(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    a = dict(c)
    list(c.keys()), list(c.values()), list(c.items()), len(c), c.get("zz"), "zz" in c
    a.pop(next(iter(a)))
    for n in e.cs:
        n in c, c.get(n)
    raises(lambda: c["zz"], KeyError)
    c.get_array().copy()


def op_check(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    c.check_valid_configuration()
    v = c.get_array().copy()
    w = v.copy()
    w[j % len(w)] = [2.5, np.nan, 0.3, 1.0][i % 4]
    before = w.copy()
    for f in (lambda: e.cs.check_configuration_vector_representation(w),
              lambda: util.check_configuration(e.cs, w, bool(j % 2)),
              lambda: e.cs.get_active_hyperparameters(w),
              lambda: Configuration(e.cs, vector=w).check_valid_configuration()):
        try:
            f()
        except ValueError:
            pass
    e.cs.get_active_hyperparameters(c)
    ensure(np.array_equal(w, before, equal_nan=True), "the vector checked was modified")


def op_clauses(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    a = dict(c)
    v = c.get_array().copy()
    arr = np.array([v, v]).T.copy()
    olds = copy.deepcopy((a, v.tolist(), arr.tolist()))
    for x in e.cs.conditions:
        x.satisfied_by_value(a), x.satisfied_by_vector(v), x.satisfied_by_vector_array(arr)
        copy.copy(x)
    for x in e.cs.forbidden_clauses:
        x.is_forbidden_value(a), x.is_forbidden_vector(v), x.is_forbidden_vector_array(arr)
        copy.copy(x)
    ensure(repr(olds) == repr((a, v.tolist(), arr.tolist())), "the values judged were modified")


def op_one_exchange(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    for k, n in enumerate(util.get_one_exchange_neighbourhood(c, seed=j, num_neighbors=2)):
        edit(e, n, i, j)
        if k > 6:
            break  # also when abandoned half way


def op_random_neighbor(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    if e.m.n_full() > 40:
        try:
            edit(e, util.get_random_neighbor(c, seed=j), i, j)
        except ValueError:
            pass  # there is none


def op_grid(e, i, j):
    if all(h["k"] in ("uf", "ui", "cat", "ord", "const") for h in e.m.hps.values()):
        nums = [h["name"] for h in e.m.hps.values() if h["k"] in NUMS]
        steps = {n: 2 + (j + k) % 7 for k, n in enumerate(nums)}
        if j % 3 == 0:
            steps["zz"] = 3  # of no use here
        before = dict(steps)
        if math.prod(steps[h["name"]] if h["k"] in NUMS else size_of(h) for h in e.m.hps.values()) <= 300:
            for c in util.generate_grid(e.cs, steps)[:2]:
                edit(e, c, i, j)
            ensure(steps == before, "the numbers of steps were modified")


def op_impute(e, i, j):
    c = e.cfgs[i % len(e.cfgs)]
    edit(e, util.impute_inactive_values(c), i, j)
    a = dict(c)
    b = copy.deepcopy(a)
    edit(e, util.deactivate_inactive_hyperparameters(a, e.cs), i, j)
    ensure(a == b, "the values passed on were modified")


def op_fix_types(e, i, j):
    if all(h["k"] in ("uf", "ui", "cat", "ord", "const") for h in e.m.hps.values()):
        a = {n: str(v) for n, v in e.cfgs[i % len(e.cfgs)].items()}
        try:
            util.fix_types(a, e.cs)  # (works on the dictionary it is given)
        except ValueError:
            pass  # ambiguous text


def op_serialize(e, i, j):
    cs = e.cs
    doc = cs.to_serialized_dict()
    before = json.dumps(doc)
    ConfigurationSpace.from_serialized_dict(doc)
    ensure(json.dumps(doc) == before, "the document was modified by reading it")
    f = io.StringIO()
    cs.to_json(f)
    cs.to_yaml(io.StringIO())
    f.seek(0)
    ConfigurationSpace.from_json(f)


def op_pcs(e, i, j):
    for w in (pcs, pcs_new):
        try:
            w.write(e.cs)
        except Exception:  # noqa: BLE001
            return False  # not expressible


def op_copy(e, i, j):
    other = copy.deepcopy(e.cs)
    other.sample_configuration(3)
    other.seed(5)
    other.add(build_hp({"k": "const", "name": "brand new", "value": 1}))
    back = pickle.loads(pickle.dumps(e.cs))
    back.sample_configuration(2)
    c = copy.deepcopy(e.cfgs[i % len(e.cfgs)])
    edit(e, c, i, j)
    c = copy.copy(e.cfgs[i % len(e.cfgs)])
    c = Configuration(e.cs, values=dict(e.cfgs[i % len(e.cfgs)]))
    edit(e, c, i, j)


def op_derive(e, i, j):
    e.cs.remove_hyperparameter_priors()
    big = ConfigurationSpace()
    big.add(build_hp({"k": "cat", "name": "switch", "choices": ["a", "b"]}))
    if j % 2:
        big.add_configuration_space("sub", e.cs)
    else:
        big.add_configuration_space("sub", e.cs, parent_hyperparameter={"parent": big["switch"], "value": "a"})
    big.sample_configuration(2)


def op_refused(e, i, j):
    """Assignments and constructions that are refused."""
    c = e.cfgs[i % len(e.cfgs)]
    n, bad = e.illegal
    for f, exc in ((lambda: c.__setitem__(n, bad), (ValueError, TypeError)),
                   (lambda: c.__setitem__("zz", 1), KeyError),
                   (lambda: Configuration(e.cs, values={**c, n: bad}), (ValueError, TypeError)),
                   (lambda: Configuration(e.cs, values={**c, "zz": 1}), ValueError)):
        ensure(raises(f, *(exc if isinstance(exc, tuple) else (exc,))), f"{n}={bad!r} accepted")


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
NAMES_OF_OPS = sorted(OPS)


def gen(d):
    spec = space(d, 1, 6, small=d.chance(70), mixes=ALL_MIX, forbs=(0, 3), pcond=55,
                 meta=d.chance(40))
    m = Model(spec)
    asgs = [a for a in (valid_assignment(d, spec, m) for _ in range(2)) if a is not None]
    ops = [[d.pick(NAMES_OF_OPS), d.int(0, 7), d.int(0, 30)] for _ in range(d.int(2, 10))]
    h = d.pick(spec["hps"])
    return {"spec": spec, "asgs": asgs, "ops": ops, "illegal": [h["name"], illegal_value(d, h)],
            "start": d.int(0, 3)}


class Env:
    pass


def state(cs, cfgs):
    return {
        "document": json.dumps(cs.to_serialized_dict(), default=repr),
        "text": repr(cs),
        "order": list(cs),
        "default": repr(cs.get_default_configuration()),
        "conditions": [repr(x) for x in cs.conditions],
        "forbidden clauses": [repr(x) for x in cs.forbidden_clauses],
        "names": [(n, cs[n].name, repr(cs[n]), repr(cs[n].meta)) for n in cs],
        "children": {n: [x.name for x in cs.children_of[n]] for n in cs},
        "name and meta": repr((cs.name, cs.meta)),
        "generator": cs.random.get_state()[1].tolist() + list(cs.random.get_state()[2:]),
        "configurations": [(repr(dict(c)), c.get_array().tolist().__repr__(), hash(c)) for c in cfgs],
    }


def check(case):
    spec = case["spec"]
    e = Env()
    e.m = Model(spec)
    e.cs, e.twin = build_space(spec), build_space(spec)
    e.illegal = case["illegal"]

    def cfgs(cs):
        out = [make(cs, a) for a in case["asgs"]]
        out += [Configuration(cs, vector=vec_of(cs, a)) for a in case["asgs"][:1]]
        out.append(cs.get_default_configuration())
        for _ in range(case["start"]):
            out.append(cs.sample_configuration())
        return out

    e.cfgs, other = cfgs(e.cs), cfgs(e.twin)
    e.twin2 = build_space(spec)
    want = state(e.twin, other)
    done = set()
    for name, i, j in case["ops"]:
        r = OPS[name](e, i, j)
        got = state(e.cs, e.cfgs)
        for k in want:
            ensure(got[k] == want[k], f"{name} changed the {k}: {got[k]!r}, before {want[k]!r}")
        ensure(e.cs == e.twin and e.twin == e.cs, f"no longer equal to its twin after {name}")
        ensure(e.cs == e.twin2, f"not equal to a fresh twin after {name}")
        for a, b in zip(e.cfgs, other):
            ensure(a == b, f"{name} changed a configuration: {a!r}, before {b!r}")
        if r is not False:
            done.add(name)
    a, b = e.cs.sample_configuration(4), e.twin.sample_configuration(4)
    ensure([key(asg_of(x)) for x in a] == [key(asg_of(x)) for x in b],
           "the next samples differ from those of the twin")
    for x, y in zip(e.cfgs, other):
        for n, i in ((h["name"], k) for k, h in enumerate(spec["hps"])):
            v = lattice(e.m.hps[n])[i % len(lattice(e.m.hps[n]))]
            res = []
            for c in (x, y):
                if n not in c:
                    res.append("inactive")
                    continue
                try:
                    c[n] = v
                    res.append(repr(dict(c)))
                except ValueError:
                    res.append("refused")
            ensure(res[0] == res[1], f"assigning {n}={v!r} gives {res[0]}, on the twin {res[1]}")
    return sorted(done) if len(done) >= 2 else None


PARTS = [part("history", gen, check, 1400)]
