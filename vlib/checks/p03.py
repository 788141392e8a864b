""" P03: the serialized form is plain JSON, complete, without private data, and detached from the object. """
import copy
import json

from hypothesis import strategies as st

import objects as ob
import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common.serialization import serialize, serialize_with_pointers, is_serializable


def plain_form(value):
    """ The JSON form the statement asks for, computed independently. """
    if isinstance(value, vmodels.Measure):
        return {"object_class": f"{type(value).__module__}.{type(value).__name__}", "value": float(value)}
    if isinstance(value, type):
        return f"{value.__module__}.{value.__name__}"
    if isinstance(value, bool) or value is None or isinstance(value, str):
        return value
    if isinstance(value, ob.npy.integer):
        return int(value)
    if isinstance(value, int):
        return value
    if isinstance(value, float):
        return float(value)
    if isinstance(value, (list, tuple)):
        return [plain_form(v) for v in value]
    if isinstance(value, dict):
        return {k: plain_form(v) for k, v in value.items()}
    form = {"object_class": f"{type(value).__module__}.{type(value).__name__}"}
    form.update({k: plain_form(v) for k, v in ob.public_fields(value).items()})
    return form


def is_plain(value, path="#"):
    expect(type(value) in (dict, list, str, int, float, bool, type(None)),
           lambda: f"{path} holds a {type(value).__name__}, which is not a JSON value")
    if isinstance(value, dict):
        for key, item in value.items():
            expect(type(key) is str, lambda: f"{path} has a key of type {type(key).__name__}")
            expect(not key.startswith("_") or key == "_references" or "object_class" not in value, lambda: f"private key {key!r} at {path}")
            is_plain(item, f"{path}/{key}")
    elif isinstance(value, list):
        for i, item in enumerate(value):
            is_plain(item, f"{path}/{i}")


def fingerprint(root):
    """ State of the object, with the identity of everything it holds. """
    return [(path, id(value)) for path, value in ob.walk(root) if not isinstance(value, (int, float, str))], \
        ob.normal(root), sorted(vars(root))


def containers(value, found=None):
    found = {} if found is None else found
    if isinstance(value, (dict, list)):
        if id(value) in found:
            return found
        found[id(value)] = value
        for item in (value.values() if isinstance(value, dict) else value):
            containers(item, found)
    return found


def judge_form(case, ctx):
    root = ob.build(case)[-1]
    before = fingerprint(root)
    pointed = root.to_dict(use_pointers=True)
    plain = root.to_dict(use_pointers=False)
    expect(fingerprint(root) == before, "serializing an object changed it")
    is_plain(pointed)
    is_plain(plain)
    text = json.dumps(pointed, allow_nan=False)
    expect(json.loads(text) == pointed, "the form is not kept by JSON")
    json.dumps(plain, allow_nan=False)
    expect(plain == plain_form(root), lambda: f"form {plain} instead of {plain_form(root)}")
    for form in (pointed, plain):
        for key in ("scratch", "_cache"):
            expect(f'"{key}"' not in json.dumps(form), lambda: f"{key} is serialized")
    expect(is_serializable(root), "object is said not to be serializable")
    if len(case) > 1:
        ctx.hit("several")


def scramble(form):
    """ Destroy a serialized form in place, without following a container twice. """
    for container in list(containers(form).values()):
        if isinstance(container, dict):
            for key in list(container):
                container[key] = "scrambled"
            container["extra"] = 1
        else:
            container[:] = ["scrambled"]


def judge_detached(case, ctx):
    """ Changing the form changes nor the object nor a later form; changing the object does not change the form. """
    specs, pointers = case
    root = ob.build(specs)[-1]
    before = fingerprint(root)
    first = root.to_dict(use_pointers=pointers)
    kept = copy.deepcopy(first)
    second = root.to_dict(use_pointers=pointers)
    scramble(second)
    expect(fingerprint(root) == before, "changing a serialized form changed the object")
    expect(first == kept, "changing a serialized form changed another one")
    # Reloading does not alter the form it reads, which can be read again.
    loaded = DessiaObject.dict_to_object(first)
    expect(first == kept, "reloading changed the form it read")
    again = DessiaObject.dict_to_object(first)
    expect(ob.normal(loaded) == ob.normal(again), "the same form gives two different objects")
    # No container of the reloaded object belongs to the form or to the original.
    ids = set(containers(first))
    for path, value in ob.walk(root):
        if isinstance(value, (list, dict)):
            ids.add(id(value))
    for path, value in ob.walk(loaded):
        if isinstance(value, (list, dict)):
            expect(id(value) not in ids, lambda: f"reloaded object shares the container at {path}")
    # Changing the object leaves the form as it was.
    for path, value in list(ob.walk(root)):
        if isinstance(value, list):
            value.append(1)
        elif isinstance(value, dict):
            value["other"] = 2
    expect(first == kept, "changing the object changed its serialized form")
    if len(json.dumps(first)) > 150:
        ctx.hit("pointers" if pointers else "plain")


def judge_rejects(case, ctx):
    """ What JSON cannot hold is refused, instead of being written. """
    kind, pointers, wrap = case
    value = {"set": {1, 2}, "bytes": b"ab", "object": object(), "function": len, "complex": 1j}[kind]
    payload = {"bare": value, "list": [1, value], "dict": {"a": value}}[wrap]
    slot = vmodels.Slot(payload)
    try:
        if pointers:
            form = slot.to_dict(use_pointers=True)
        else:
            form = slot.to_dict(use_pointers=False)
    except Exception:
        ctx.hit(kind)
        return
    is_plain(form)


QUICK = 4
SUBS = [
    Sub("form", ob.graphs(max_objects=6, numpy=True, keys=ob.ANY_KEYS), judge_form, quick=1500, shards=3, rule="several objects"),
    Sub("detached", st.tuples(ob.graphs(max_objects=6, keys=ob.ANY_KEYS), st.booleans()), judge_detached, quick=1500, shards=3,
        rule="the form has containers with content"),
    Sub("rejects", st.tuples(st.sampled_from(["set", "object", "function", "complex"]), st.booleans(),
                             st.sampled_from(["bare", "list", "dict"])), judge_rejects, quick=40,
        rule="a value which is not JSON is refused"),
]
