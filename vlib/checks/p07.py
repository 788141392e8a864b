""" P07: paths designate one place of an object, for reading and for writing. """
import json

from hypothesis import strategies as st

import objects as ob
import vmodels
from checks.p02 import expand
from engine import Sub, expect
from dessia_common.utils.helpers import get_in_object_from_path, set_in_object_from_path


def judge_get(case, ctx):
    root = ob.build(case)[-1]
    count = 0
    for path, value in ob.walk(root):
        if path == "#":
            continue
        count += 1
        expect(root._get_from_path(path) is value, lambda: f"{path} does not lead to the value")
        expect(get_in_object_from_path(root, path) is value, lambda: f"{path} does not lead to the value")
    # In a serialized form, references are followed on the way.
    form = root.to_dict(use_pointers=True)
    plain = root.to_dict(use_pointers=False)
    for path, value in ob.walk(root):
        if path == "#":
            continue
        found = expand(form, get_in_object_from_path(form, path))
        wanted = ob.resolve(plain, path)
        if not isinstance(wanted, (dict, list)):
            neutral = path.rsplit("/", 1)[-1] in ("name", "comment", "remark")
            expect(found == wanted or neutral, lambda: f"in the form, {path} leads to {found!r}, not {wanted!r}")
        else:
            expect(type(found) is type(wanted) and len(found) == len(wanted),
                   lambda: f"in the form, {path} leads to {found!r}, not {wanted!r}")
    if count > 8:
        ctx.hit()


def judge_set(case, ctx):
    specs, pick, new = case
    root = ob.build(specs)[-1]
    model = ob.build(specs)[-1]
    spots = []
    for path, value in ob.walk(root):
        if path == "#":
            continue
        parent = ob.resolve(root, path.rsplit("/", 1)[0])
        if not isinstance(parent, tuple):
            spots.append(path)
    path = spots[pick % len(spots)]
    set_in_object_from_path(root, path, new)
    expect(get_in_object_from_path(root, path) is new or get_in_object_from_path(root, path) == new,
           lambda: f"{path} does not hold the value set")
    # The same change made by hand on the model.
    parent, last = ob.resolve(model, path.rsplit("/", 1)[0]), path.rsplit("/", 1)[1]
    if isinstance(parent, list):
        parent[int(last)] = new
    elif isinstance(parent, dict):
        parent[ob.key(last)] = new
    else:
        setattr(parent, last, new)
    expect(ob.normal(root) == ob.normal(model),
           lambda: f"setting {path} did something else: {ob.first_difference(model, root)}")
    ctx.hit("deep" if path.count("/") > 1 else "shallow")


def judge_keys(case, ctx):
    """ Containers with integer keys, and pairs of integers as keys. """
    codes, pairs, new = case
    value = {"codes": {c: [c, {"v": c}] for c in codes}, "pairs": {p: {"v": sum(p)} for p in pairs}}
    for code in codes:
        expect(get_in_object_from_path(value, f"#/codes/{code}/1/v") == code, "integer key not found")
        expect(get_in_object_from_path(value, f"codes/{code}/0") == code, "path without root mark not found")
    for pair in pairs:
        expect(get_in_object_from_path(value, f"#/pairs/{pair}/v") == sum(pair), "pair key not found")
    if codes:
        size = len(value["codes"])
        set_in_object_from_path(value, f"#/codes/{codes[0]}", new)
        expect(value["codes"][codes[0]] == new and len(value["codes"]) == size, "value not set at its integer key")
        expect(get_in_object_from_path(value, f"#/codes/{codes[0]}") is new, "value set not read at its integer key")
    for pair in pairs[:1]:
        value["pairs"][pair] = new
        expect(get_in_object_from_path(value, f"#/pairs/{pair}") is new, "value set not read at its pair key")
        ctx.hit()


def judge_digits(case, ctx):
    """ Tables keyed by texts made of digits, by integers, or both. """
    keys, key, new = case
    table = {k: [[i], 0.0, None, [], ""][i] for i, k in enumerate(keys)}
    model = dict(table)
    text = str(key)
    if text in table:
        target = text
    elif int(text) in table:
        target = int(text)
    else:
        target = None
    if target is not None:
        expect(get_in_object_from_path({"t": table}, f"#/t/{text}") is table[target], "wrong value read at a key")
        expect(get_in_object_from_path([table], f"#/0/{text}") is table[target], "wrong value read at a key in a list")
        ctx.hit("read")
    set_in_object_from_path({"t": table}, f"#/t/{text}", new)
    model[text if target is None else target] = new
    expect(table == model and list(map(type, table)) == list(map(type, model)),
           lambda: f"setting {text} in {keys} gave {table}")
    ctx.hit("set")


def raw_places(value, path="#"):
    yield path, value
    pairs = value.items() if isinstance(value, dict) else enumerate(value) if isinstance(value, list) else ()
    for key, sub in pairs:
        if str(key):
            yield from raw_places(sub, f"{path}/{ob.segment(key)}")


def judge_raw(case, ctx):
    """ Without evaluation of references, a path in a form is taken to the letter. """
    form = ob.build(case)[-1].to_dict(use_pointers=True)
    for path, value in raw_places(form):
        if path == "#":
            continue
        found = get_in_object_from_path(form, path, evaluate_pointers=False)
        expect(found is value, lambda: f"{path} leads to {found!r}, not {value!r}")
        if path.endswith("$ref"):
            ctx.hit()
            parent = path.rsplit("/", 1)[0]
            set_in_object_from_path(form, f"{parent}/mark", 3, evaluate_pointers=False)
            expect(value is get_in_object_from_path(form, path, evaluate_pointers=False)
                   and get_in_object_from_path(form, parent, evaluate_pointers=False).pop("mark") == 3,
                   "value not set beside the reference")


def judge_wrong(case, ctx):
    """ A path leading nowhere is refused. """
    specs, wrong = case
    root = ob.build(specs)[-1]
    for path, value in list(ob.walk(root)):
        if isinstance(value, (list, tuple)):
            segments = [str(len(value)), wrong]
        elif isinstance(value, dict):
            segments = [wrong, "98765", f"({wrong}, 98765)"]
        elif ob.is_object(value):
            segments = [wrong]
        else:
            continue
        for segment in segments:
            bad = f"{path}/{segment}"
            try:
                found = get_in_object_from_path(root, bad)
            except Exception:
                ctx.hit(type(value).__name__)
                continue
            expect(False, f"{bad} does not exist, but gives {found!r}")


NEW = st.sampled_from(["new", [1, 2], None, 0, 0.0, "", [], {}, {"v": 1}])
QUICK = 4
SUBS = [
    Sub("get", ob.graphs(max_objects=6, keys=ob.ANY_KEYS), judge_get, quick=900, shards=2, rule="more than eight paths"),
    Sub("set", st.tuples(ob.graphs(max_objects=6, keys=ob.ANY_KEYS), st.integers(0, 500),
                         st.one_of(ob.FLOATS, NEW)), judge_set, quick=1500, shards=3,
        rule="every case"),
    Sub("keys", st.tuples(st.lists(st.integers(0, 30), max_size=4, unique=True),
                          st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=3, unique=True),
                          st.one_of(ob.FLOATS, NEW)), judge_keys, quick=300, rule="integer keys"),
    Sub("digits", st.tuples(st.lists(st.one_of(st.integers(0, 4), st.integers(0, 4).map(str)), max_size=5, unique=True),
                            st.integers(0, 5), st.one_of(ob.FLOATS, NEW)), judge_digits, quick=300, rule="every case"),
    Sub("raw", ob.graphs(max_objects=6, keys=ob.ANY_KEYS), judge_raw, quick=300, rule="a form with references"),
    Sub("wrong", st.tuples(ob.graphs(max_objects=4, keys=ob.ANY_KEYS), st.sampled_from(["nothing", "zz", "x9"])), judge_wrong, quick=400,
        rule="every case"),
]
