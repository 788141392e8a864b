""" P01: an object reloaded from its serialized form carries the same data. """
import io
import json
import os

from hypothesis import strategies as st

import objects as ob
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile
from dessia_common.serialization import serialize, serialize_with_pointers, deserialize

CHANNELS = ["dict", "text", "nopointers", "file", "stream", "compact", "utf-8", "utf-8 file"]


def twin_names(root):
    """ For each data content, the names carried by the objects having it. """
    names = {}
    for _, value in ob.walk(root):
        if ob.is_object(value):
            names.setdefault(ob.normal(value, names=False), set()).add(value.name)
    return names


def reload(root, channel):
    """ Serialize then reload through one of the channels users have. """
    if channel == "dict":
        return type(root).dict_to_object(root.to_dict(use_pointers=True))
    if channel == "text":
        return DessiaObject.dict_to_object(json.loads(json.dumps(root.to_dict())))
    if channel == "nopointers":
        return type(root).dict_to_object(json.loads(json.dumps(root.to_dict(use_pointers=False))))
    if channel == "file":
        path = os.path.join(os.getcwd(), f"p01_{os.getpid()}.json")
        try:
            root.save_to_file(path)
            return type(root).from_json(path)
        finally:
            if os.path.exists(path):
                os.remove(path)
    if channel == "stream":
        stream = io.StringIO()
        root.save_to_stream(stream)
        return type(root).from_json_stream(io.BytesIO(stream.getvalue().encode("utf-8")))
    if channel == "utf-8":
        text = json.dumps(root.to_dict(), ensure_ascii=False)
        return type(root).from_json_stream(io.BytesIO(text.encode("utf-8")))
    if channel == "utf-8 file":
        path = os.path.join(os.getcwd(), f"p01_{os.getpid()}.json")
        try:
            with open(path, "w", encoding="utf-8") as file:
                json.dump(root.to_dict(), file, ensure_ascii=False)
            return type(root).from_json(path)
        finally:
            if os.path.exists(path):
                os.remove(path)
    if channel == "compact":
        stream = io.StringIO()
        root.save_to_stream(stream, indent=0)
        return DessiaObject.dict_to_object(json.loads(stream.getvalue()))
    raise KeyError(channel)


def same_data(original, reloaded, channel, merged_names):
    """ Same data, field by field. Objects with equal data may come back as one: names are then any of theirs. """
    expect(type(reloaded) is type(original), lambda: f"{channel}: class {type(reloaded)} instead of {type(original)}")
    expect(ob.normal(reloaded, names=False) == ob.normal(original, names=False),
           lambda: f"{channel}: data differ after reload at {ob.first_difference(original, reloaded, names=False)}")
    by_path = dict(ob.walk(reloaded))
    for path, value in ob.walk(original):
        if ob.is_object(value):
            allowed = merged_names[ob.normal(value, names=False)] if channel != "nopointers" else {value.name}
            expect(by_path[path].name in allowed,
                   lambda: f"{channel}: name at {path} is {by_path[path].name!r}, was {value.name!r}")


def judge_graph(case, ctx):
    specs, channel = case
    root = ob.build(specs)[-1]
    merged = twin_names(root)
    reloaded = reload(root, channel)
    same_data(root, reloaded, channel, merged)
    if hasattr(root, "pair"):
        expect(isinstance(reloaded.pair, tuple), "a tuple argument came back as another sequence")
    if hasattr(root, "couple"):
        expect(isinstance(reloaded.couple, tuple), "a tuple argument came back as another sequence")
    expect(reloaded == root and root == reloaded, f"{channel}: reloaded object is not equal to the original")
    ctx.label(channel, specs[-1][0])
    if len(specs) > 1 or len(json.dumps(root.to_dict())) > 160:
        ctx.hit()


def judge_wild(case, ctx):
    """ One object with arbitrary floats and texts: JSON must keep each of them exactly. """
    specs, channel = case
    root = ob.build(specs)[-1]
    reloaded = reload(root, channel)
    expect(ob.normal(reloaded) == ob.normal(root),
           lambda: f"{channel}: data differ after reload at {ob.first_difference(root, reloaded)}")
    ctx.hit(channel)


def judge_values(case, ctx):
    """ Bare values (containers of objects) go through the serialization functions. """
    specs, picks, pointers = case
    objects = ob.build(specs)
    value = {"items": [objects[i % len(objects)] for i in picks], "numbers": [1, 2.5, None], "text": "x",
             "nested": {"deep": [{"again": objects[-1]}]}}
    if pointers:
        serialized = serialize_with_pointers(value)[0]
    else:
        serialized = serialize(value)
    loaded = deserialize(json.loads(json.dumps(serialized)))
    loaded.pop("_references", None)
    expect(ob.normal(loaded, names=False) == ob.normal(value, names=False),
           lambda: f"value differs after reload at {ob.first_difference(value, loaded, names=False)}")
    ctx.label("pointers" if pointers else "plain")
    if picks:
        ctx.hit()


def judge_twice(case, ctx):
    """ A second trip changes nothing: what is reloaded serializes to the same data. """
    specs, channel = case
    root = ob.build(specs)[-1]
    once = reload(root, channel)
    twice = reload(once, channel)
    expect(ob.normal(once) == ob.normal(twice),
           lambda: f"{channel}: second reload differs at {ob.first_difference(once, twice)}")
    plain_once, plain_twice = once.to_dict(use_pointers=False), twice.to_dict(use_pointers=False)
    expect(plain_once == plain_twice, "pointer-free forms of first and second reload differ")
    if len(specs) > 2:
        ctx.hit(channel)


QUICK = 3
SUBS = [
    Sub("graph", st.tuples(ob.graphs(max_objects=7, numpy=True, keys=ob.ANY_KEYS), st.sampled_from(CHANNELS)), judge_graph, quick=2600,
        shards=4,
        rule="the graph has several objects, or containers with content"),
    Sub("wild", st.tuples(ob.graphs(max_objects=1, classes=["Leaf", "Bag", "Slot", "Special", "KwOnly", "Quantity"],
                                    floats=ob.WILD_FLOATS, numpy=True, keys=ob.ANY_KEYS), st.sampled_from(CHANNELS)), judge_wild, quick=700, shards=2,
        rule="every case (arbitrary finite floats)"),
    Sub("values", st.tuples(ob.graphs(max_objects=4, keys=ob.ANY_KEYS), st.lists(st.integers(0, 3), max_size=4), st.booleans()),
        judge_values, quick=500, rule="at least one object in the value"),
    Sub("twice", st.tuples(ob.graphs(max_objects=6, keys=ob.ANY_KEYS), st.sampled_from(CHANNELS)), judge_twice, quick=500,
        rule="graph of three objects or more"),
]
