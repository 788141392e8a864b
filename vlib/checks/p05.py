""" P05: a copy is an equal, independent object. """
import copy

from hypothesis import strategies as st

import objects as ob
import vmodels
from checks.p01 import twin_names
from checks.p02 import same_instances
from engine import Sub, expect

DEEP = ["copy", "copy deep", "deepcopy"]
SHALLOW = ["shallow", "copy.copy"]


def duplicate(root, way):
    if way == "copy":
        return root.copy()
    if way == "copy deep":
        return root.copy(deep=True, memo={})
    if way == "deepcopy":
        return copy.deepcopy(root)
    if way == "shallow":
        return root.copy(deep=False)
    return copy.copy(root)


def natures(value, path=""):
    """ Paths of the tuples an object holds, out of the objects it is made of. """
    if ob.is_object(value):
        if path:
            return
        items = ob.public_fields(value).items()
    elif isinstance(value, dict):
        items = value.items()
    elif isinstance(value, (list, tuple)):
        items = enumerate(value)
        if isinstance(value, tuple):
            yield path
    else:
        return
    for key, item in items:
        yield from natures(item, f"{path}/{key}")


def twin_natures(root):
    """ For each data content, the tuples held by the objects having it. """
    found = {}
    for _, value in ob.walk(root):
        if ob.is_object(value):
            found.setdefault(ob.normal(value, names=False), []).append(set(natures(value)))
    return found


def judge_deep(case, ctx):
    specs, way = case
    root = ob.build(specs)[-1]
    before = ob.normal(root)
    twin = duplicate(root, way)
    expect(type(twin) is type(root) and twin is not root, "not a new object of the same class")
    expect(ob.normal(twin, names=False) == ob.normal(root, names=False),
           lambda: f"{way}: data differ at {ob.first_difference(root, twin, names=False)}")
    expect(twin.name == root.name, f"{way}: name lost")
    if any(spec[0] == "Strict" for spec in specs):
        ctx.label("identity objects")
    else:
        expect(twin == root and root == twin and hash(twin) == hash(root), f"{way}: copy is not equal to its original")
    names, kinds = twin_names(root), twin_natures(root)
    by_path = dict(ob.walk(twin))
    owned = {id(v) for _, v in ob.walk(root) if isinstance(v, (list, dict)) or ob.is_object(v)}
    for path, value in ob.walk(root):
        other = by_path[path]
        if ob.is_object(value):
            # Objects of equal data may have become one
            expect(set(natures(other)) in kinds[ob.normal(value, names=False)],
                   lambda: f"{way}: sequence type changed in {path}")
            expect(other.name in names[ob.normal(value, names=False)], lambda: f"{way}: name lost at {path}")
        if isinstance(value, (list, dict)) or ob.is_object(value):
            expect(id(other) not in owned, lambda: f"{way}: copy and original share what is at {path}")
    shared = same_instances(root, twin, way)
    if len(specs) > 1:
        ctx.hit(way)
    if shared:
        ctx.label("shared")
    # Changing the copy leaves the original as it was
    for path, value in list(ob.walk(twin)):
        if isinstance(value, list):
            value.append(1.0)
        elif isinstance(value, dict):
            value["added"] = 1.0
    for _, value in list(ob.walk(twin)):
        if ob.is_object(value):
            value.name = "changed"
    expect(ob.normal(root) == before, f"{way}: changing the copy changed the original")


def judge_shallow(case, ctx):
    specs, way = case
    root = ob.build(specs)[-1]
    before = ob.normal(root)
    twin = duplicate(root, way)
    expect(type(twin) is type(root) and twin is not root, "not a new object of the same class")
    expect(ob.normal(twin) == before, lambda: f"{way}: data differ at {ob.first_difference(root, twin)}")
    expect(twin == root and hash(twin) == hash(root), f"{way}: copy is not equal to its original")
    twin.name = "changed"
    for field in ob.public_fields(twin):
        setattr(twin, field, None)
    expect(ob.normal(root) == before, f"{way}: changing an attribute of the copy changed the original")
    ctx.hit(way)


class Foreign:
    """ An object of another library, that knows how to copy itself. """

    def __init__(self, content):
        self.content = content

    def __deepcopy__(self, memo):
        return Foreign(list(self.content))


class Unhashable(Foreign):
    """ Same, with equality and no hash. """

    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.content == other.content

    def __deepcopy__(self, memo):
        return Unhashable(list(self.content))


def judge_foreign(case, ctx):
    """ Values that are not Dessia objects but know how to copy themselves. """
    contents, places, way, hashable = case
    foreign = [(Foreign if hashable else Unhashable)(list(c)) for c in contents]
    picked = [foreign[p % len(foreign)] for p in places]
    cut = len(picked) // 2
    root = vmodels.Slot([picked[:cut], {f"k{i}": v for i, v in enumerate(picked[cut:])}, picked[0]], name="root")
    twin = duplicate(root, way)
    old, new = [p[0] + list(p[1].values()) + [p[2]] for p in (root.payload, twin.payload)]
    expect(len(old) == len(new), f"{way}: values were lost")
    for i, value in enumerate(old):
        expect(isinstance(new[i], Foreign) and new[i].content == value.content, f"{way}: value changed")
        expect(not any(new[i] is v for v in old), f"{way}: copy and original share a value")
        for j, other in enumerate(old if hashable else ()):
            expect((new[i] is new[j]) == (value is other), f"{way}: sharing inside the object changed")
    if len(set(map(id, picked))) < len(picked):
        ctx.hit(way)


QUICK = 4
SUBS = [
    Sub("foreign", st.tuples(st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=1, max_size=3),
                             st.lists(st.integers(0, 5), min_size=2, max_size=6), st.sampled_from(DEEP), st.booleans()),
        judge_foreign, quick=200, rule="one value at several places"),
    Sub("deep", st.tuples(ob.graphs(max_objects=7, classes=list(ob.SCHEMA), keys=ob.ANY_KEYS), st.sampled_from(DEEP)), judge_deep,
        quick=2000, shards=4, rule="several objects"),
    Sub("shallow", st.tuples(ob.graphs(max_objects=5, keys=ob.ANY_KEYS), st.sampled_from(SHALLOW)), judge_shallow, quick=800, shards=2,
        rule="every case"),
]
