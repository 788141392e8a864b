""" P12: serialized arguments of a method are turned back into what the method expects. """
import json
from typing import Any, Dict, List, Literal, Optional, Tuple, Type, Union

from hypothesis import strategies as st

import objects as ob
import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common import measures
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance, Mass, Measure
from dessia_common.serialization import deserialize_argument, serialize
from dessia_common.typings import InstanceOf

BASIC = {"int": (int, ob.INTS), "float": (float, ob.FLOATS), "whole": (float, st.integers(-5, 5)),
         "str": (str, ob.TEXTS), "bool": (bool, st.booleans()), "any": (Any, ob.scalars()),
         "choice": (Literal["a", "b c"], st.sampled_from(["a", "b c"])),
         "dict": (Dict[str, float], st.dictionaries(ob.KEYS, ob.FLOATS, max_size=3)),
         "distance": (Distance, ob.FLOATS.map(lambda v: ("M", "Distance", v))),
         "class": (Type, st.sampled_from(["Leaf", "Branch"]).map(lambda n: ("C", n)))}
GRAPHS = {"leaf": (vmodels.Leaf, ["Leaf", "SLeaf"], None), "branch": (vmodels.Branch, None, "Branch"),
          "sbranch": (vmodels.SBranch, None, "SBranch"), "bag": (vmodels.Bag, ["Bag"], None),
          "object": (DessiaObject, None, None), "instance": (InstanceOf[DessiaObject], None, None),
          "union": (Union[vmodels.Leaf, vmodels.Bag, vmodels.Quantity], ["Leaf", "Bag", "Quantity"], None)}
HASHABLE = [c for c in ob.SCHEMA if c != "Strict"]


@st.composite
def typed(draw, depth=2):
    """ An annotation and a recipe of a value for it. """
    pick = draw(st.integers(0, 9))
    if depth and pick > 4:
        kind = ("list", "tuple", "many", "optional", "list")[pick - 5]
        if kind == "list" or kind == "many":
            inner = draw(typed(depth=depth - 1))
            values = [inner[1]] if draw(st.booleans()) else []
            if values:
                # Other values of the same type.
                values += [draw(same_type(inner)) for _ in range(draw(st.integers(0, 2)))]
            return (kind, inner[0]), ("L" if kind == "list" else "T", values)
        if kind == "optional":
            inner = draw(typed(depth=depth - 1))
            kind = draw(st.sampled_from(["optional", "optional", "none or"]))
            return (kind, inner[0]), inner[1] if draw(st.integers(0, 2)) else None
        parts = draw(st.lists(typed(depth=depth - 1), min_size=1, max_size=3))
        return ("tuple", tuple(p[0] for p in parts)), ("T", [p[1] for p in parts])
    return draw(plain(draw(st.sampled_from(sorted(BASIC) + sorted(GRAPHS) * 2))))


@st.composite
def plain(draw, name):
    if name in BASIC:
        value = draw(BASIC[name][1])
        if isinstance(value, dict):
            value = ("D", list(value.items()))
        return ("plain", name), value
    _, classes, root = GRAPHS[name]
    if root:
        specs = draw(ob.graphs(max_objects=4, root=root, classes=HASHABLE))
        if specs[-1][0] != root:
            specs = [("Leaf", {"value": 1.0, "count": 1, "label": "", "flag": True}, ""),
                     (root, {"first": ("R", 0), "children": ("L", [("R", 0)]), "mapping": ("D", []),
                             "pair": ("T", [("R", 0), 1])}, "")]
    else:
        specs = draw(ob.graphs(max_objects=1 if classes else 4, classes=classes or HASHABLE))
    return ("plain", name), ("O", specs)


def same_type(pair):
    kind = pair[0]
    if kind[0] == "plain":
        return plain(kind[1]).map(lambda p: p[1])
    return st.just(pair[1])


def annotation(kind):
    if kind[0] == "plain":
        return BASIC[kind[1]][0] if kind[1] in BASIC else GRAPHS[kind[1]][0]
    if kind[0] == "list":
        return List[annotation(kind[1])]
    if kind[0] == "many":
        return Tuple[annotation(kind[1]), ...]
    if kind[0] == "optional":
        inner = annotation(kind[1])
        return inner if inner is Any else Optional[inner]
    if kind[0] == "none or":
        inner = annotation(kind[1])
        return inner if inner is Any else Union[None, inner]
    return Tuple[tuple(annotation(k) for k in kind[1])]


def value_of(recipe):
    if isinstance(recipe, tuple) and recipe[0] == "O":
        return ob.build(recipe[1])[-1]
    if isinstance(recipe, tuple) and recipe[0] in ("L", "T"):
        return (list if recipe[0] == "L" else tuple)(value_of(r) for r in recipe[1])
    return ob.build_value(recipe, [])


def form(value, pointers):
    if isinstance(value, DessiaObject):
        return value.to_dict(use_pointers=pointers)
    if isinstance(value, (list, tuple)):
        return [form(v, pointers) for v in value]
    if isinstance(value, type):
        return f"{value.__module__}.{value.__name__}"
    return serialize(value)


def strict(value, kind):
    """ Numbers given as integers where a float is expected are floats. """
    if kind[0] == "plain":
        return float(value) if kind[1] == "whole" and value is not None else value
    if value is None:
        return None
    if kind[0] in ("list", "many"):
        return [strict(v, kind[1]) for v in value]
    if kind[0] in ("optional", "none or"):
        return strict(value, kind[1])
    return tuple(strict(v, k) for v, k in zip(value, kind[1]))


def same_nature(found, value):
    """ Lists are lists, tuples are tuples. """
    if isinstance(value, (list, tuple)):
        expect(type(found) is type(value), lambda: f"a {type(value).__name__} became a {type(found).__name__}")
        for one, two in zip(found, value):
            same_nature(one, two)




def judge_argument(case, ctx):
    (kind, recipe), pointers = case
    value = value_of(recipe)
    wire = json.loads(json.dumps(form(value, pointers)))
    found = deserialize_argument(annotation(kind), wire)
    expect(ob.normal(found, names=False) == ob.normal(strict(value, kind), names=False),
           lambda: f"as {annotation(kind)}, {ob.first_difference(strict(value, kind), found)}")
    same_nature(found, value)
    if kind[0] != "plain" or kind[1] in GRAPHS:
        ctx.hit(kind[0] if kind[0] != "plain" else kind[1])


COUNTER = [0]


def judge_method(case, ctx):
    parts, given, pointers = case
    COUNTER[0] += 1
    namespace = {f"A{i}": annotation(p[0]) for i, p in enumerate(parts)}
    signature = ", ".join(["self"] + [f"p{i}: A{i} = None" for i in range(len(parts))])
    exec(f"def work({signature}):\n    return [{', '.join(f'p{i}' for i in range(len(parts)))}]", namespace)
    class_ = type(f"Host{COUNTER[0]}", (DessiaObject,), {"work": namespace["work"], "_allowed_methods": ["work"],
                                                         "__module__": "vmodels"})
    host = class_()
    if pointers:
        # A class of the same name in another module, whose method takes something else.
        other = type(class_.__name__, (DessiaObject,), {"work": lambda self, q0: q0, "__module__": "vtwin"})
        other.work.__annotations__["q0"] = Any
        expect(other().dict_to_arguments({"0": 3}, "work") == {"q0": 3}, "wrong arguments of a twin")
    values = [value_of(p[1]) for p in parts]
    sent = {str(i): form(v, pointers) for i, v in enumerate(values) if i not in given}
    arguments = host.dict_to_arguments(json.loads(json.dumps(sent)), "work")
    expect(set(arguments) == {f"p{i}" for i in range(len(parts)) if i not in given},
           lambda: f"arguments {sorted(arguments)} from {sorted(sent)}")
    results = host.work(**arguments)
    for i, (found, value) in enumerate(zip(results, values)):
        wanted = None if i in given else strict(value, parts[i][0])
        expect(ob.normal(found, names=False) == ob.normal(wanted, names=False), lambda: f"argument {i}: {ob.first_difference(wanted, found)}")
    if len(sent) > 1:
        ctx.hit()


WRONG = {"int": ["a", 1.5, [1]], "float": ["1.5", [1.0], {}], "str": [1, 1.5, ["a"]], "bool": ["True", 1.0, []]}


def judge_wrong(case, ctx):
    name, pick, wrapped = case
    value = WRONG[name][pick % len(WRONG[name])]
    type_ = BASIC[name][0]
    if wrapped:
        type_, value = List[type_], [value]
    try:
        found = deserialize_argument(type_, value)
    except TypeError:
        ctx.hit(name)
        return
    expect(False, f"{value!r} is accepted as {type_}: {found!r}")


MEASURES = sorted(c.__name__ for c in Measure.__subclasses__())


def judge_measure(case, ctx):
    """ A measure given for any kind of measure stays what it is. """
    name, value, expected, wrap = case
    given = getattr(measures, name)(value)
    wire = json.loads(json.dumps(serialize(given)))
    type_ = getattr(measures, expected)
    if wrap == "list":
        found = deserialize_argument(List[type_], [wire, wire])
        expect(type(found) is list and len(found) == 2 and found[0] == found[1], "list of measures")
        found = found[0]
    else:
        found = deserialize_argument(Optional[type_] if wrap == "optional" else type_, given if wrap == "raw" else wire)
    expect(type(found) is type(given) and found == given, lambda: f"as {type_}, {given!r} became {found!r}")
    if name != expected:
        ctx.hit(expected)


def judge_files(case, ctx):
    """ Files are given as they are, alone, or alone in a list. """
    kinds, contents, kind, wrap = case
    files = []
    for i, (text, content) in enumerate(zip(kinds, contents)):
        file = StringFile(f"f{i}.txt") if text else BinaryFile(f"f{i}.bin")
        file.write(content if text else content.encode())
        files.append(file)
    type_ = {"text": StringFile, "binary": BinaryFile}[kind]
    if wrap == "plain":
        found, wanted = deserialize_argument(type_, files[0]), files[0]
    elif wrap == "list":
        found, wanted = deserialize_argument(List[type_], list(files)), files
    elif len(files) == 1:
        found, wanted = deserialize_argument(type_, list(files)), files[0]
    else:
        try:
            found = deserialize_argument(type_, list(files))
        except TypeError:
            ctx.hit("several files for one")
            return
        expect(found == files, lambda: f"{len(files)} files for one became {found!r}")
        return
    expect(found is wanted if wrap != "list" else [id(f) for f in found] == [id(f) for f in files], "other files")
    for file, text, content in zip(files, kinds, contents):
        expect(file.getvalue() == (content if text else content.encode()), "other contents")
    ctx.hit(wrap)


SUBS = [
    Sub("measures", st.tuples(st.sampled_from(MEASURES), ob.FLOATS, st.sampled_from(["Measure"] + MEASURES),
                              st.sampled_from(["plain", "raw", "list", "optional"])), judge_measure, quick=200,
        rule="another kind of measure is expected"),
    Sub("files", st.lists(st.tuples(st.booleans(), st.text(max_size=4)), min_size=1, max_size=3).flatmap(
        lambda l: st.tuples(st.just([t for t, _ in l]), st.just([c for _, c in l]), st.sampled_from(["text", "binary"]),
                            st.sampled_from(["plain", "list", "alone", "alone"]))), judge_files, quick=150,
        rule="every case"),
    Sub("argument", st.tuples(typed(), st.booleans()), judge_argument, quick=1600, shards=4,
        rule="a container or an object"),
    Sub("method", st.tuples(st.lists(typed(), min_size=1, max_size=4), st.sets(st.integers(0, 3), max_size=2),
                            st.booleans()), judge_method, quick=500, shards=3, rule="two arguments or more"),
    Sub("wrong", st.tuples(st.sampled_from(sorted(WRONG)), st.integers(0, 2), st.booleans()), judge_wrong, quick=40,
        rule="every case"),
]
