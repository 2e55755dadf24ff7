"""C15: saving to JSON, YAML or a plain dictionary and loading loses nothing."""
import copy
import io
import json
import os
import shutil
import tempfile
from pathlib import Path

from vp.lib import *
from ConfigSpace import ConfigurationSpace

RULE = (
    "A case is a space of every kind of hyperparameter, choice type (text, numbers, booleans, "
    "none, lists), meta data, conditions and forbidden clauses, and some assignments. It is "
    "written and read through the plain dictionary, JSON and YAML (streams and files), and the "
    "result is compared attribute by attribute with the description. Non-trivial: at least two "
    "hyperparameters and a condition, forbidden clause, weight or meta data."
)
ASSUMPTIONS = ["choices and meta data are of types JSON can express; files are in a scratch directory"]


def gen(d):
    spec = space(d, 1, 7, small=d.chance(50), mixes=LIST_MIX, forbs=(0, 3), meta=d.chance(60),
                 nest=2)
    return {"spec": spec, "asgs": [full_assignment(d, spec) for _ in range(d.int(0, 3))],
            "how": d.pick(["dict", "json", "yaml", "json file", "yaml file", "json module"]),
            "seed": d.seed(), "sort": d.chance(30)}


def through(cs, how, sort):
    """(document before reading, after reading, loaded space)"""
    if how == "dict":
        doc = cs.to_serialized_dict()
        before = copy.deepcopy(doc)
        return before, doc, ConfigurationSpace.from_serialized_dict(doc)
    if how == "json module":
        from ConfigSpace.read_and_write import json as csj

        text = csj.write(cs)
        return None, None, csj.read(text)
    kind = how.split()[0]
    write = cs.to_json if kind == "json" else cs.to_yaml
    read = ConfigurationSpace.from_json if kind == "json" else ConfigurationSpace.from_yaml
    kw = {"sort_keys": True} if sort else {}
    if how.endswith("file"):
        tmp = tempfile.mkdtemp(prefix="vp-c15-")
        try:
            path = os.path.join(tmp, "space." + kind)
            write(path, **kw)
            a = read(Path(path))
            before = Path(path).read_text()
            b = read(path)
            ensure(Path(path).read_text() == before, "reading changed the file")
            ensure(a == b, "reading twice gives different spaces")
            # overwriting an existing (longer) file
            Path(path).write_text(before + before)
            write(Path(path), **kw)
            ensure(Path(path).read_text() == before, "overwriting gives another document")
        finally:
            shutil.rmtree(tmp)
        return None, None, b
    buf = io.StringIO()
    write(buf, **kw)
    buf.seek(0)
    return None, None, read(buf)


def check(case):
    spec = case["spec"]
    cs, twin = build_space(spec), build_space(spec)
    first = cs.to_serialized_dict()
    ensure(json.loads(json.dumps(first)) == first, "the dictionary is not plain")
    before, after, new = through(cs, case["how"], case["sort"])
    ensure(before == after, "reading changed the document")
    ensure(cs == twin, "writing changed the space")
    conforms(new, spec, case["asgs"])
    ensure(new.name == spec.get("name"), f"name {new.name!r}")
    ensure(new.meta == spec.get("meta"), f"meta {new.meta!r}")
    ensure(new == cs and cs == new, "the loaded space is not equal to the original")
    ensure(list(new) == list(cs), f"order {list(new)!r}, originally {list(cs)!r}")
    ensure(new.to_serialized_dict() == first, "writing the loaded space gives another document")
    ensure(cs.to_serialized_dict() == first, "writing again gives another document")
    for s in (cs, new, twin):
        s.seed(case["seed"])
    a, b, c = (s.sample_configuration(8) for s in (cs, new, twin))
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in b], "different samples")
    ensure([asg_of(x) for x in a] == [asg_of(x) for x in c], "writing changed the samples")
    ensure(a == b, "samples are not equal")
    for n in cs:
        for x in (a[0].get(n), cs[n].default_value):
            if n in a[0]:
                v = float(cs[n].to_vector(x))
                ensure(float(new[n].to_vector(x)) == v, f"encoding of {n}")
                ensure(float(np.ravel(new[n].pdf_values([x]))[0])
                       == float(np.ravel(cs[n].pdf_values([x]))[0]), f"density of {n}")
    lab = kinds_label(spec)
    if any(h.get("meta") for h in spec["hps"]) or spec.get("meta"):
        lab.append("meta")
    if any(h.get("weights") for h in spec["hps"]):
        lab.append("weights")
    if len(spec["hps"]) < 2 or not lab:
        return None
    return [*lab, case["how"]]


PARTS = [part("roundtrip", gen, check, 2500)]
