""" P02: sharing survives serialization, references resolve, distinct data never merge. """
import json

from hypothesis import strategies as st

import objects as ob
from checks.p01 import reload
from engine import Sub, expect
from dessia_common import REF_MARKER
from dessia_common.serialization import serialize, serialize_with_pointers, deserialize

POINTER_CHANNELS = ["dict", "text", "file", "stream", "compact"]


def markers(value, path="#"):
    """ Yield (path, target) of every reference of a serialized form. """
    if isinstance(value, dict):
        if REF_MARKER in value:
            yield path, value[REF_MARKER]
            return
        for key, item in value.items():
            yield from markers(item, f"{path}/{key}")
    elif isinstance(value, list):
        for i, item in enumerate(value):
            yield from markers(item, f"{path}/{i}")


def target(root, pointer):
    expect(pointer.startswith("#/"), f"pointer {pointer!r} is not a path from the root")
    element = root
    for segment in pointer[2:].split("/"):
        segment = ob.key(segment)
        try:
            element = element[int(segment)] if isinstance(element, list) else element[segment]
        except (KeyError, IndexError, ValueError):
            expect(False, f"pointer {pointer!r} resolves to nothing")
    return element


def expand(root, value, depth=0):
    """ Pointer-free form, computed by following the references. """
    expect(depth < 200, "references are circular")
    if isinstance(value, dict):
        if REF_MARKER in value:
            return expand(root, target(root, value[REF_MARKER]), depth + 1)
        return {k: expand(root, v, depth + 1) for k, v in value.items() if k != "_references"}
    if isinstance(value, (list, tuple)):
        return [expand(root, v, depth + 1) for v in value]
    return value


def strip_neutral(value):
    """ Serialized form without what equality ignores. """
    if isinstance(value, dict):
        neutral = ("name",) + ob.NEUTRAL.get(str(value.get("object_class", "")).rsplit(".", 1)[-1], ())
        is_obj = "object_class" in value
        return {k: strip_neutral(v) for k, v in value.items() if not (is_obj and k in neutral)}
    if isinstance(value, (list, tuple)):
        return [strip_neutral(v) for v in value]
    return value


def same_instances(original, reloaded, channel):
    """ One instance used twice stays one instance; different data are different instances. """
    instances, back = {}, {}
    by_path = dict(ob.walk(reloaded))
    shared = 0
    for path, value in ob.walk(original):
        if not ob.is_object(value) or path == "#":
            continue
        copy = by_path[path]
        if id(value) in instances:
            shared += 1
            expect(instances[id(value)] is copy,
                   lambda: f"{channel}: one object used at several places comes back as several instances, at {path}")
        instances[id(value)] = copy
        if id(copy) in back:
            expect(ob.normal(back[id(copy)], names=False) == ob.normal(value, names=False),
                   lambda: f"{channel}: objects with different data came back as one instance, at {path}")
        back[id(copy)] = value
    return shared


def judge_share(case, ctx):
    specs, channel = case
    root = ob.build(specs)[-1]
    reloaded = reload(root, channel)
    shared = same_instances(root, reloaded, channel)
    ctx.label(channel)
    if shared:
        ctx.hit("shared")


def judge_pointers(case, ctx):
    """ Every reference resolves, inside the table of references, to the form of the object it stands for. """
    root = ob.build(case)[-1]
    form = root.to_dict(use_pointers=True)
    plain = root.to_dict(use_pointers=False)
    expect(not list(markers(plain)), "the pointer-free form has references")
    expect("_references" not in plain, "the pointer-free form has a table of references")
    found = list(markers(form))
    for _, pointer in found:
        entry = target(form, pointer)
        expect(isinstance(entry, dict) and "object_class" in entry,
               lambda: f"pointer {pointer} does not lead to an object")
    expanded = expand(form, form)
    expect(strip_neutral(expanded) == strip_neutral(plain),
           lambda: "the form with references, once expanded, is not the pointer-free form")
    # Objects stored on their own are only in the table
    def inline(value, path):
        if isinstance(value, dict):
            name = str(value.get("object_class", "")).rsplit(".", 1)[-1]
            if path != "#" and not path.count("/") == 2 and name in ("SLeaf", "SSlot", "SBranch"):
                expect(False, f"standalone object is embedded at {path}")
            for key, item in value.items():
                inline(item, f"{path}/{key}")
        elif isinstance(value, list):
            for i, item in enumerate(value):
                inline(item, f"{path}/{i}")
    for key, item in form.items():
        if key == "_references":
            for ident, entry in item.items():
                for sub_key, sub_item in entry.items():
                    inline(sub_item, f"#/_references/{ident}/{sub_key}")
        else:
            inline({"": item}, f"#/{key}")
    targets = {pointer for _, pointer in found}
    table = {f"#/_references/{ident}" for ident in form["_references"]}
    expect(targets <= table, "a reference leads out of the table of references")
    if found:
        ctx.hit("references")


def judge_paths(case, ctx):
    """ A form where objects met again are references to the place where they were met first. """
    root = ob.build(case)[-1]
    places, again = {}, []

    def write(value, path):
        if ob.is_object(value):
            if id(value) in places:
                again.append(path)
                return {REF_MARKER: places[id(value)]}
            places[id(value)] = path
            content = {k: write(v, f"{path}/{k}") for k, v in ob.public_fields(value).items()}
            return {"object_class": f"{type(value).__module__}.{type(value).__name__}", **content}
        if isinstance(value, (list, tuple)):
            return [write(v, f"{path}/{i}") for i, v in enumerate(value)]
        if isinstance(value, dict):
            return {k: write(v, f"{path}/{k}") for k, v in value.items()}
        return serialize(value)
    form = json.loads(json.dumps(write(root, "#")))
    reloaded = type(root).dict_to_object(form)
    expect(ob.normal(reloaded) == ob.normal(root),
           lambda: f"references to paths: data differ at {ob.first_difference(root, reloaded)}")
    same_instances(root, reloaded, "references to paths")
    if again:
        ctx.hit(f"{min(3, len(again))} references")


def judge_containers(case, ctx):
    """ Containers of objects, without a root object. """
    specs, picks = case
    objects = ob.build(specs)
    value = {"items": [objects[i % len(objects)] for i in picks], "by": {str(i): o for i, o in enumerate(objects)},
             "codes": {i: o for i, o in enumerate(objects[:3])}}
    form = serialize_with_pointers(value)[0]
    for _, pointer in markers(form):
        target(form, pointer)
    loaded = deserialize(form)
    expect(sorted(map(str, loaded["codes"])) == sorted(map(str, value["codes"])),
           lambda: f"keys {list(loaded['codes'])} instead of {list(value['codes'])}")
    loaded.pop("_references", None)
    same_instances(value, loaded, "containers")
    expect(ob.normal(loaded, names=False) == ob.normal(value, names=False), "data differ")
    if len(picks) > 1:
        ctx.hit()


SHARING = ["Leaf", "SLeaf", "Slot", "SSlot", "Branch", "SBranch", "Strict", "Bag", "Special", "Quantity", "TwinLeaf",
           "TwinSlot"]
SUBS = [
    Sub("share", st.tuples(ob.graphs(max_objects=8, classes=SHARING, keys=ob.ANY_KEYS), st.sampled_from(POINTER_CHANNELS)), judge_share,
        quick=2400, shards=4, rule="an object is used at two places at least"),
    Sub("pointers", ob.graphs(max_objects=8, classes=SHARING, keys=ob.ANY_KEYS), judge_pointers, quick=1500, shards=3,
        rule="the serialized form holds references"),
    Sub("paths", ob.graphs(max_objects=4, classes=SHARING, keys=ob.ANY_KEYS), judge_paths, quick=300, rule="an object is met again"),
    Sub("containers", st.tuples(ob.graphs(max_objects=5, classes=SHARING, keys=ob.ANY_KEYS), st.lists(st.integers(0, 4), max_size=5)),
        judge_containers, quick=500, rule="several objects in the list"),
]
