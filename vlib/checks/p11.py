""" P11: the schema of a class or a method says what it takes. """
import json
from typing import Any, Dict, List, Literal, Optional, Tuple, Type, Union

from hypothesis import strategies as st

import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance, Mass
from dessia_common.schemas.core import (ClassSchema, MethodSchema, Schema, SchemaAttribute, SchemaAttributeGroup,
                                        SchemaStep, deserialize_annotation, get_schema, serialize_annotation)
from dessia_common.typings import (AttributeType, CadViewType, ClassAttributeType, ClassMethodType, InstanceOf,
                                   MarkdownType, MethodType, PlotDataType)

LEAF = ("Leaf", 1.5, 2, "default", True)
# Annotation, json type, usable defaults, and whether a default is refused.
KINDS = {
    "int": (int, "number", [0, 3, -1]),
    "float": (float, "number", [0.0, 2.5]),
    "str": (str, "string", ["", "text"]),
    "bool": (bool, "boolean", [True, False]),
    "distance": (Distance, "number", [0.5, 0.0, 2]),
    "mass": (Mass, "number", [1.5]),
    "leaf": (vmodels.Leaf, "object", [None, LEAF]),
    "sleaf": (vmodels.SLeaf, "object", [None]),
    "instance": (InstanceOf[vmodels.Leaf], "object", [None, LEAF]),
    "sinstance": (InstanceOf[vmodels.SLeaf], "object", [None]),
    "union": (Union[vmodels.Leaf, vmodels.Branch], "object", [None, LEAF]),
    "sunion": (Union[vmodels.SLeaf, vmodels.SBranch], "object", [None]),
    "floats": (List[float], "array", [None, "list"]),
    "leaves": (List[vmodels.Leaf], "array", [None, "list"]),
    "matrix": (List[List[int]], "array", [None]),
    "pair": (Tuple[int, str], "array", [(1, "a"), None]),
    "nested": (Tuple[float, Tuple[int, bool]], "array", [None]),
    "many": (Tuple[float, ...], "array", [None, (1.0, 2.0, 3.0)]),
    "dict": (Dict[str, float], "object", [None, "dict"]),
    "choice": (Literal["one two", "b", "c,d"], "string", ["b", "one two"]),
    "file": (StringFile, "text", []),
    "binary": (BinaryFile, "text", []),
    "class": (Type[vmodels.Leaf], "object", [None, ("mark", "class")]),
    "method": (MethodType[vmodels.Leaf], "object", [None, ("mark", "method")]),
    "attribute": (AttributeType[vmodels.Leaf], "object", [None, ("mark", "attribute")]),
    "any": (Any, "object", [None, 3, "x", LEAF]),
    "mixed": (Tuple[vmodels.Leaf, int], "array", [None, (LEAF, 1)]),
    "measured": (Tuple[int, Tuple[str, Distance]], "array", [(1, ("a", ("mark", "measure")))]),
    "files": (List[StringFile], "array", [None]),
    "opttuple": (Optional[Tuple[int, str]], "array", [None, (1, "a")]),
    "optdistance": (Optional[Distance], "number", [None, 0.5]),
    "optchoice": (Optional[Literal["a", "b"]], "string", [None, "b"]),
    "optional": (Optional[float], "number", [None, 1.5]),
    "optleaf": (Optional[vmodels.Leaf], "object", [None, LEAF]),
    "optlist": (Optional[List[int]], "array", [None, "list"]),
    "optsleaf": (Optional[vmodels.SLeaf], "object", [None]),
    "optsunion": (Optional[Union[vmodels.SLeaf, vmodels.SBranch]], "object", [None]),
    "optfile": (Optional[StringFile], "text", [None]),
}
STANDALONE = ("sleaf", "sunion", "sinstance", "optsleaf", "optsunion")
MARKS = {"class": vmodels.SLeaf, "method": MethodType(vmodels.Leaf, "to_dict"),
         "attribute": AttributeType(vmodels.Leaf, "value"), "measure": Distance(2.5)}
MUTABLE = {"list": [1.0], "dict": {"a": 1.0}}
NAMES = ["first", "second_value", "x", "n_items", "Length", "my_long_argument_name", "a1", "y_", "value2"]
TEXTS = st.sampled_from(["", "A length.", "How many, at most.", "Several\n        lines of text.", "é, ü", "A ratio: width / height.", "The type of what it returned, as param.",
                        "A length.|more", "A type: not a return|more", "|more"])


@st.composite
def members(draw):
    names = draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True))
    arguments = []
    defaults = False
    for name in names:
        kind = draw(st.sampled_from(sorted(KINDS)))
        choices = KINDS[kind][2]
        if defaults and not choices:
            kind, choices = "float", KINDS["float"][2]
        defaults = defaults or (bool(choices) and draw(st.integers(0, 2)) == 0)
        default = ("default", draw(st.sampled_from(choices))) if defaults else None
        arguments.append((name, kind, default, draw(st.none() | TEXTS)))
    return arguments, draw(TEXTS), draw(st.booleans()), draw(st.integers(0, 63))


COUNTER = [0]


def default_of(default):
    value = default[1]
    if isinstance(value, tuple) and value == LEAF:
        return vmodels.Leaf(*LEAF[1:])
    if isinstance(value, tuple) and value[0] == "mark":
        return MARKS[value[1]]
    if isinstance(value, tuple):
        return tuple(default_of(("default", v)) for v in value)
    if isinstance(value, str) and value in MUTABLE:
        return MUTABLE[value]
    return value


def function(arguments, first, progress, description):
    namespace, parts = {}, [first] if first else []
    for index, (name, kind, default, _) in enumerate(arguments):
        namespace[f"A{index}"] = KINDS[kind][0]
        part = f"{name}: A{index}"
        if default:
            namespace[f"D{index}"] = default_of(default)
            part += f" = D{index}"
        parts.append(part)
    if progress:
        parts.append("progress_callback=None")
    exec(f"def work({', '.join(parts)}):\n    pass", namespace)
    work = namespace["work"]
    work.__module__ = "vmodels"
    # What follows | is not shown: types of the arguments, and what the function returns
    shown, _, returned = description.partition("|")
    lines = [f"    {shown}", ""]
    for name, _, _, text in arguments:
        if text is not None:
            shown, _, typed = text.partition("|")
            lines += [f"    :param {name}: {shown}"] + [f"    :type {name}: float, in {name}", ""] * bool(typed)
    if returned:
        lines += ["", "    :return: what it computes", "    :rtype: float"]
    work.__doc__ = "\n".join(lines)
    return work


def pretty(name):
    return " ".join(w[0].upper() + w[1:] if len(w) > 1 else w for w in name.split("_"))


def wanted_default(kind, default):
    if kind in ("floats", "leaves", "dict", "optlist", "matrix", "files"):
        return None
    if default is None:
        if kind == "pair":
            return (None, None)
        if kind == "nested":
            return (None, (None, None))
        if kind == "many":
            return (None,)
        if kind == "mixed":
            return (None, None)
        if kind == "measured":
            return (None, (None, {"object_class": serialize_annotation(Distance), "value": None}))
        if kind in ("distance", "mass"):
            return {"object_class": serialize_annotation(KINDS[kind][0]), "value": None}
        if kind == "class":
            return "vmodels.Leaf"
        if kind in ("method", "attribute"):
            return {"object_class": f"dessia_common.typings.{kind.capitalize()}Type", "class_": "vmodels.Leaf",
                    "name": None}
        return None
    value = default_of(default)
    if kind in ("distance", "mass", "optdistance") and value is not None:
        return {"object_class": serialize_annotation(KINDS[kind][0]), "value": value}
    return plain(value)


def plain(value):
    if isinstance(value, tuple):
        return tuple(plain(v) for v in value)
    if isinstance(value, Distance):
        return {"object_class": "dessia_common.measures.Distance", "value": 2.5}
    if isinstance(value, type):
        return f"{value.__module__}.{value.__name__}"
    if isinstance(value, (MethodType, AttributeType)):
        return {"object_class": f"dessia_common.typings.{type(value).__name__}", "class_": "vmodels.Leaf",
                "name": value.name}
    if isinstance(value, vmodels.Leaf):
        return {"object_class": "vmodels.Leaf", "name": "", **dict(zip(("value", "count", "label", "flag"), LEAF[1:]))}
    return value


def check_schema(schema, arguments, description, extra=()):
    chunks = schema.to_dict()["steps"]
    expect(len(chunks) == 1, "not one step")
    json.dumps(schema.to_dict())
    properties = chunks[0]["properties"]
    names = [a[0] for a in arguments] + list(extra)
    expect([p["key"] for p in properties] == names,
           lambda: f"properties are {[p['key'] for p in properties]}, arguments {names}")
    for (name, kind, default, text), chunk in zip(arguments, properties):
        annotation, type_, _ = KINDS[kind]
        expect(chunk["type"] == type_, lambda: f"{name}, a {kind}, is typed {chunk['type']}")
        expect(chunk["pythonTyping"] == serialize_annotation(annotation), lambda: f"{name} has {chunk['pythonTyping']}")
        expect(chunk["title"] == pretty(name), lambda: f"{name} has title {chunk['title']!r}")
        expect(chunk["editable"] is True, lambda: f"{name} is not editable")
        expect(("defaultValue" in chunk) == bool(default), lambda: f"{name}: default announced {chunk.get('defaultValue')}")
        if default:
            expect(chunk["defaultValue"] == wanted_default(kind, default),
                   lambda: f"{name} announces {chunk['defaultValue']!r} by default")
        wanted = (text or "").partition("|")[0].strip()
        expect(chunk["description"] == wanted, lambda: f"{name} is described {chunk['description']!r}")
        if kind in ("leaf", "sleaf", "instance", "sinstance", "union", "sunion", "optleaf",
                    "optsleaf", "optsunion"):
            standalone = kind in STANDALONE
            expect(chunk["standaloneInDb"] == standalone, lambda: f"{name} standalone: {chunk['standaloneInDb']}")
            expect((name in schema.standalone_properties) == standalone, f"{name} in standalone properties")
            classes = {"union": ["vmodels.Leaf", "vmodels.Branch"], "sunion": ["vmodels.SLeaf", "vmodels.SBranch"],
                       "sleaf": ["vmodels.SLeaf"], "sinstance": ["vmodels.SLeaf"],
                       "optsleaf": ["vmodels.SLeaf"], "optsunion": ["vmodels.SLeaf", "vmodels.SBranch"]}.get(kind, ["vmodels.Leaf"])
            expect(sorted(chunk["classes"]) == sorted(classes), lambda: f"{name} has classes {chunk['classes']}")
        if kind == "choice":
            expect(list(chunk["allowedValues"]) == ["one two", "b", "c,d"], "not the choices")
        if kind in ("distance", "mass"):
            expect(chunk["siUnit"] == annotation.si_unit, "not the unit of the measure")
        if kind in ("pair", "nested", "many"):
            expect(chunk["additionalItems"] == (kind == "many"), "additional items")
            expect(len(chunk["items"]) == {"pair": 2, "nested": 2, "many": 1}[kind], "items of the tuple")
            expect(chunk["items"][0]["type"] == "number", "type of the first item")
        if kind in ("floats", "leaves", "matrix", "optlist"):
            item = {"floats": "number", "leaves": "object", "matrix": "array", "optlist": "number"}[kind]
            expect(chunk["items"]["type"] == item, "type of the items")
        if kind == "dict":
            expect(chunk["patternProperties"][".*"]["type"] == "number", "type of the values")
        if kind in ("file", "binary", "optfile"):
            expect(chunk["isFile"] is True, "not a file")
        expect(schema.property_schemas[name].is_file_related == (kind in ("file", "binary", "optfile", "files")),
               lambda: f"{name}, a {kind}, related to files: {schema.property_schemas[name].is_file_related}")
    expect(schema.to_dict()["description"] == description.partition("|")[0].strip(), "not the description of the docstring")
    defaults = schema.default_dict()
    for name, kind, default, _ in arguments:
        expect(defaults[name] == wanted_default(kind, default),
               lambda: f"default of {name}, a {kind} with {default}, is {defaults[name]!r}")
    expect(set(schema.default_value()) == {a[0] for a in arguments if a[2]} | set(extra),
           lambda: f"user defaults: {sorted(schema.default_value())}")
    # A list or a dictionary as default value is the one error these declarations may have.
    errors = [a[0] for a in arguments if a[2] and isinstance(a[2][1], str) and a[2][1] in MUTABLE and a[1] in
              ("floats", "leaves", "dict", "optlist")]
    expect(schema.is_valid == (not errors), lambda: f"valid: {schema.is_valid}, with mutable defaults {errors}")
    return defaults


def judge_class(case, ctx):
    arguments, description, standalone, hidden = case
    COUNTER[0] += 1
    name_argument = ("name", "str", ("default", ""), None)
    work = function(arguments + [name_argument], "self", False, "")
    not_editable = [a[0] for k, a in enumerate(arguments) if hidden >> k & 1]
    class_ = type(f"Made{COUNTER[0]}", (DessiaObject,),
                  {"__init__": work, "__module__": "vmodels", "_standalone_in_db": standalone,
                   "_non_editable_attributes": not_editable,
                   "__doc__": function(arguments, "self", False, description).__doc__})
    setattr(vmodels, class_.__name__, class_)
    try:
        schema = ClassSchema(class_)
        defaults = check_schema(schema, arguments + [name_argument], description)
        expect(set(defaults) == {a[0] for a in arguments} | {"name", "object_class"}, "keys of the default dict")
        expect(defaults["object_class"] == f"vmodels.{class_.__name__}", "class of the default dict")
        form = class_.schema()
        expect(form["standaloneInDb"] == standalone and form["classes"] == [f"vmodels.{class_.__name__}"],
               "the class is not described")
        expect(schema.editable_attributes == [a[0] for a in arguments if a[0] not in not_editable] + ["name"],
               lambda: f"editable: {schema.editable_attributes}")
    finally:
        delattr(vmodels, class_.__name__)
    if len(arguments) > 1:
        ctx.hit(*(a[1] for a in arguments))


def check_references(schema, arguments):
    """ Objects that are standalone may be given by their id as default. """
    for index, (name, kind, _, _) in enumerate(arguments):
        before = schema.property_schemas[name].default_value()
        schema.property_schemas[name].inject_reference(f"id{index}")
        after = schema.property_schemas[name].default_value()
        if kind in STANDALONE:
            expect(after == {"object_id": f"id{index}"}, lambda: f"{name} refers to {after}")
            expect(schema.to_dict()["steps"][0]["properties"][index]["defaultValue"] == after, "not in the schema")
        else:
            expect(after == before, lambda: f"{name}, a {kind}, refers to {after}")


def judge_method(case, ctx):
    arguments, description, progress, pick = case
    COUNTER[0] += 1
    kind = ("self", "cls", None)[pick % 3]
    work = function(arguments, kind, progress, description)
    work.__name__ = "work"
    member = {"self": work, "cls": classmethod(work), None: staticmethod(work)}[kind]
    class_ = type(f"Made{COUNTER[0]}", (DessiaObject,), {"work": member, "_allowed_methods": ["work"],
                                                         "__module__": "vmodels"})
    check_schema(MethodSchema(getattr(class_, "work")), arguments, description)
    check_references(MethodSchema(getattr(class_, "work")), arguments)
    instance = class_()
    expect(list(instance.method_schemas) == ["work"], "allowed methods")
    defaults = instance.method_dict("work")
    expect({k: v for k, v in defaults.items()} == {a[0]: wanted_default(a[1], a[2]) for a in arguments},
           lambda: f"defaults of the method: {defaults}")
    if len(arguments) > 1:
        ctx.hit(str(kind))


WRONG = {"mixed": Union[vmodels.Leaf, vmodels.SLeaf], "keys": Dict[int, float], "values": Dict[str, vmodels.Leaf],
         "lists": Dict[str, List[int]], "optional keys": Optional[Dict[int, float]],
         "optional values": Optional[Dict[str, vmodels.Leaf]],
         "optional mixed": Optional[Union[vmodels.Leaf, vmodels.SLeaf]],
         "mixed first": Union[vmodels.SBranch, vmodels.Leaf, vmodels.Branch],
         "mixed middle": Union[vmodels.Leaf, vmodels.SLeaf, vmodels.Branch],
         "mixed last": Union[vmodels.Branch, vmodels.Leaf, vmodels.SLeaf],
         "all but first": Union[vmodels.Leaf, vmodels.SLeaf, vmodels.SBranch],
         "all but middle": Union[vmodels.SBranch, vmodels.Branch, vmodels.SLeaf]}


def judge_valid(case, ctx):
    """ Declarations the platform cannot handle are reported. """
    arguments, wrong, index = case
    arguments = [(name, kind) for name, kind in arguments]
    namespace = {f"A{i}": KINDS[k][0] for i, (_, k) in enumerate(arguments)}
    parts = [f"{name}: A{i}" for i, (name, _) in enumerate(arguments)]
    if wrong is not None:
        namespace["W"] = WRONG[wrong]
        parts.insert(index % (len(parts) + 1), "wrong: W")
    exec(f"def work({', '.join(['self'] + parts)}):\n    pass", namespace)
    work = namespace["work"]
    work.__module__ = "vmodels"
    schema = MethodSchema(work)
    expect(schema.is_valid == (wrong is None), lambda: f"valid: {schema.is_valid}, with {wrong}")
    errors = schema.check_list().checks_above_level("error")
    expect(len(errors) == (wrong is not None), lambda: f"errors {errors}")
    if wrong:
        expect("wrong" in errors[0].message, "the error does not say which attribute")
        ctx.hit(wrong)


BUILTINS = {"int": (int, "number"), "float": (float, "number"), "str": (str, "string"), "bool": (bool, "boolean")}
HOLDERS = {"AttributeType": (AttributeType, "attributes"), "ClassAttributeType": (ClassAttributeType, "class_attributes"),
           "MethodType": (MethodType, "methods"), "ClassMethodType": (ClassMethodType, "class_methods"),
           "CadViewType": (CadViewType, "view_selectors"), "PlotDataType": (PlotDataType, "view_selectors"),
           "MarkdownType": (MarkdownType, "view_selectors")}
NAMED = st.sampled_from(["Leaf", "SLeaf", "Branch", "SBranch"])
STANDALONE_NAMES = ("SLeaf", "SBranch")
ATOMS = st.one_of(st.tuples(st.just("builtin"), st.sampled_from(sorted(BUILTINS))),
                  st.tuples(st.just("measure"), st.sampled_from(["Distance", "Mass"])),
                  st.tuples(st.just("file"), st.sampled_from(["StringFile", "BinaryFile"])),
                  st.tuples(st.sampled_from(["object", "instance", "class"]), NAMED),
                  st.tuples(st.just("holder"), st.sampled_from(sorted(HOLDERS)), NAMED),
                  st.tuples(st.just("union"), st.lists(NAMED, min_size=2, max_size=3, unique=True).map(tuple)),
                  st.tuples(st.just("literal"), st.lists(st.sampled_from(["a", "b c", "d,e"]), min_size=1,
                                                         unique=True).map(sorted).map(tuple)),
                  st.tuples(st.just("dict"), st.sampled_from(sorted(BUILTINS))), st.just(("any",)))
NESTED = st.recursive(ATOMS, lambda inner: st.one_of(
    st.tuples(st.sampled_from(["list", "many", "optional"]), inner),
    st.tuples(st.just("tuple"), st.lists(inner, min_size=1, max_size=3).map(tuple))), max_leaves=6)
MEASURES = {"Distance": Distance, "Mass": Mass}
FILES = {"StringFile": StringFile, "BinaryFile": BinaryFile}


def annotated(recipe):
    kind, *rest = recipe
    if kind == "builtin":
        return BUILTINS[rest[0]][0]
    if kind == "measure":
        return MEASURES[rest[0]]
    if kind == "file":
        return FILES[rest[0]]
    if kind == "any":
        return Any
    if kind == "object":
        return getattr(vmodels, rest[0])
    if kind == "instance":
        return InstanceOf[getattr(vmodels, rest[0])]
    if kind == "class":
        return Type[getattr(vmodels, rest[0])]
    if kind == "holder":
        return HOLDERS[rest[0]][0][getattr(vmodels, rest[1])]
    if kind == "union":
        return Union[tuple(getattr(vmodels, name) for name in rest[0])]
    if kind == "literal":
        return Literal[rest[0]]
    if kind == "dict":
        return Dict[str, BUILTINS[rest[0]][0]]
    if kind == "list":
        return List[annotated(rest[0])]
    if kind == "many":
        return Tuple[annotated(rest[0]), ...]
    if kind == "optional":
        return Optional[annotated(rest[0])]
    return Tuple[tuple(annotated(r) for r in rest[0])]


def with_files(recipe):
    kind, *rest = recipe
    if kind == "tuple":
        return any(with_files(r) for r in rest[0])
    return kind == "file" or kind in ("list", "many", "optional") and with_files(rest[0])


def check_chunk(chunk, recipe, key, title, editable=True, description=""):
    """ What a form needs to know to ask for such a value, at any depth. """
    kind, *rest = recipe
    if kind == "optional":
        return check_chunk(chunk, rest[0], key, title, editable, description)

    def has(**wanted):
        for name, value in wanted.items():
            expect(name in chunk, lambda: f"{key}, {recipe}, has no {name}")
            expect(chunk[name] == value and type(chunk[name]) is type(value),
                   lambda: f"{name} of {key}, {recipe}, is {chunk[name]!r} and not {value!r}")

    has(key=key, title=title, editable=editable, description=description)
    text = serialize_annotation(annotated(recipe))
    # The members of a union may be written in any order.
    expect(chunk["pythonTyping"] == text or "Union" in text and
           deserialize_annotation(chunk["pythonTyping"]) == deserialize_annotation(text),
           lambda: f"{key}, {recipe}, is annotated {chunk['pythonTyping']}")
    expect("defaultValue" not in chunk, "a default value where there is none")
    if kind == "builtin":
        has(type=BUILTINS[rest[0]][1], formType=BUILTINS[rest[0]][1])
    elif kind == "measure":
        has(type="number", formType="measure", siUnit=MEASURES[rest[0]].si_unit)
    elif kind == "file":
        has(type="text", formType="file", isFile=True)
    elif kind == "object":
        has(type="object", formType="custom_instance", classes=[f"vmodels.{rest[0]}"], standaloneInDb=rest[0] in STANDALONE_NAMES)
    elif kind == "instance":
        has(type="object", formType="custom_instance", classes=[f"vmodels.{rest[0]}"], instanceOf=f"vmodels.{rest[0]}",
            standaloneInDb=rest[0] in STANDALONE_NAMES)
    elif kind == "class":
        has(type="object", formType="class", isClass=True)
    elif kind == "holder":
        has(type="object", formType="attribute", isAttribute=True, attributeType=HOLDERS[rest[0]][1],
            object_class=f"dessia_common.typings.{rest[0]}")
        class_ = chunk["properties"]["class_"]
        expect(class_["isClass"] is True and class_["defaultValue"] == f"vmodels.{rest[1]}" and
               class_["pythonTyping"] == f"Type[vmodels.{rest[1]}]", lambda: f"{key} is about {class_}")
        if HOLDERS[rest[0]][1] == "view_selectors":
            has(decorator={"CadViewType": "cad_view", "PlotDataType": "plot_data_view",
                           "MarkdownType": "markdown_view"}[rest[0]])
    elif kind == "union":
        has(type="object", formType="custom_instance")
        expect(sorted(chunk["classes"]) == sorted(f"vmodels.{n}" for n in rest[0]), "not the classes of the union")
        alone = {n in STANDALONE_NAMES for n in rest[0]}
        expect(chunk["standaloneInDb"] is (None if len(alone) > 1 else alone.pop()), "standalone: " + str(rest))
    elif kind == "literal":
        has(type="string", formType="string")
        expect(tuple(chunk["allowedValues"]) == rest[0], "not the choices")
    elif kind == "any":
        has(type="object")
    elif kind == "dict":
        has(type="object", formType="dynamic_dict")
        check_chunk(chunk["patternProperties"][".*"], ("builtin", rest[0]), f"{key}/1", f"{title}/1", editable)
    elif kind == "list":
        has(type="array", formType="multiple_files" if with_files(rest[0]) else "homogeneous_sequence")
        check_chunk(chunk["items"], rest[0], f"{key}/0", f"{title}/0", editable)
    else:
        items = rest[0] if kind == "tuple" else (rest[0],)
        has(type="array", formType="heterogeneous_sequence", additionalItems=kind == "many")
        expect(len(chunk["items"]) == len(items), lambda: f"{len(chunk['items'])} items in {recipe}")
        for i, item in enumerate(items):
            check_chunk(chunk["items"][i], item, f"{key}/{i}", f"{title}/{i}", editable)
    return None


def deep(recipe):
    kind, *rest = recipe
    if kind == "tuple":
        return 1 + max(deep(r) for r in rest[0])
    return 1 + deep(rest[0]) if kind in ("list", "many", "optional") else 0


def judge_deep(case, ctx):
    recipe, name, other = case
    annotation = annotated(recipe)
    schemas = [Schema.from_type(annotation, name)]
    namespace = {"A": annotation, "B": annotated(other)}
    exec(f"def work(self, {name}: A, another: B):\n    pass", namespace)
    namespace["work"].__module__ = "vmodels"
    schemas.append(MethodSchema(namespace["work"]))
    if annotation is not Any:
        text = serialize_annotation(annotation)
        schemas.append(Schema.from_serialized_type(text, name))
    for schema in schemas:
        written = schema.to_dict()
        json.dumps(written)
        chunks = written["steps"][0]["properties"]
        check_chunk(chunks[0], recipe, name, pretty(name))
        schema.check_list()
    check_chunk(schemas[1].to_dict()["steps"][0]["properties"][1], other, "another", "Another")
    expect([s.find_attribute_step(name) is s.steps[0] for s in schemas] == [True] * len(schemas), "step of the attribute")
    expect(schemas[1].find_attribute_step("absent") is None, "a step for an attribute that does not exist")
    if deep(recipe):
        ctx.hit(recipe[0])
        ctx.label(f"depth {deep(recipe)}")


MORE_NAMES = NAMES + ["fir", "second", "n_items_more", "xx", "0", "1", "10"]


@st.composite
def stepped(draw):
    """ Attributes shared out between steps, some of them in the group of their step, some out of all of them. """
    names = draw(st.lists(st.sampled_from(MORE_NAMES), min_size=1, max_size=6, unique=True))
    kinds = st.one_of(st.tuples(st.sampled_from(["object", "instance"]), st.sampled_from(["SLeaf", "Leaf"])), ATOMS, NESTED)
    attributes = [(name, draw(kinds), draw(st.sampled_from(["", "A title"])), draw(st.booleans()),
                   draw(st.sampled_from(["", "What it is"]))) for name in names]
    steps = [([], draw(st.sampled_from(["", "Step"])), draw(st.sampled_from(["", "# Doc"])),
              draw(st.none() | st.integers(0, 3))) for _ in range(draw(st.integers(1, 4)))]
    spare = []
    for i in range(len(attributes)):
        where = draw(st.integers(-1, len(steps) - 1))
        if where < 0:
            spare.append(i)
        else:
            steps[where][0].append((i, draw(st.integers(0, 3)) == 0))
    return attributes, steps, spare


def judge_steps(case, ctx):
    """ A schema in several steps tells, of each attribute, what it tells of it alone. """
    attributes, steps, spare = case

    def made(index):
        name, _, title, editable, text = attributes[index]
        return SchemaAttribute(name, title=title, editable=editable,
                               documentation={"desc": text, "type_": "", "annotation": ""} if text else None)

    built = []
    for s, (members_, label, text, variable) in enumerate(steps):
        annotations = {attributes[i][0]: annotated(attributes[i][1]) for i, _ in members_}
        grouped = [made(i) for i, group in members_ if group]
        own = [made(i) for i, group in members_ if not group]
        if grouped:
            own.append(SchemaAttributeGroup(annotations=annotations, attributes=grouped, name=f"group {s}", title="Group"))
        own_annotations = {attributes[i][0]: annotations[attributes[i][0]] for i, group in members_ if not group}
        built.append(SchemaStep(annotations=own_annotations, attributes=own, label=label, documentation=text,
                                display_variable=variable, group_id=f"g{s}", id_=f"i{s}"))
    spares = [get_schema(annotation=annotated(attributes[i][1]), attribute=made(i)) for i in spare]
    schema = Schema(steps=built, spare_properties=spares, documentation="Documentation", name="s")
    written = schema.to_dict(method=True)
    json.dumps(written)
    expect(written["method"] is True and written["description"] == "Documentation", "the schema itself")
    expect(len(written["steps"]) == len(steps) and len(written["spareProperties"]) == len(spare), "number of steps")

    def check(chunk, index):
        name, recipe, title, editable, text = attributes[index]
        check_chunk(chunk, recipe, name, title or pretty(name), editable, text)

    for s, ((members_, label, text, variable), chunk) in enumerate(zip(steps, written["steps"])):
        expect((chunk["label"], chunk["documentation"], chunk["displayVariable"], chunk["group_id"], chunk["id"],
                chunk["displaySetting"]) == (label, text, variable, f"g{s}", f"i{s}", None), lambda: f"step {s}: {chunk}")
        own = [i for i, group in members_ if not group]
        grouped = [i for i, group in members_ if group]
        expect(len(chunk["properties"]) == len(own) + bool(grouped), "number of properties")
        for i, property_ in zip(own, chunk["properties"]):
            check(property_, i)
        if grouped:
            group = chunk["properties"][-1]
            expect((group["key"], group["title"], group["formType"]) == (f"group {s}", "Group", "group"), "group")
            expect(len(group["properties"]) == len(grouped), "number of grouped properties")
            for i, property_ in zip(grouped, group["properties"]):
                check(property_, i)
    for chunk, i in zip(written["spareProperties"], spare):
        check(chunk, i)
    alone = [(s, i) for s, step in enumerate(steps) for i, group in step[0] if not group]
    singles = {i: Schema.from_type(annotated(attributes[i][1]), attributes[i][0]) for i in range(len(attributes))}
    expect(schema.standalone_properties == [attributes[i][0] for _, i in alone if singles[i].standalone_properties],
           lambda: f"standalone: {schema.standalone_properties}")
    expect(list(schema.property_schemas) == [attributes[i][0] for _, i in alone], "property schemas")
    expect(schema.default_dict() == {attributes[i][0]: singles[i].default_dict()[attributes[i][0]] for _, i in alone},
           "default dict")
    expect(schema.default_value() == {}, "defaults that nobody gave")
    expect(schema.is_valid == all(singles[i].is_valid for _, i in alone), "valid")
    for s, i in alone:
        expect(schema.find_attribute_step(attributes[i][0]) is built[s], lambda: f"step of {attributes[i][0]}")
    for name in {"f", "nothing"} | {attributes[i][0] for i in spare}:
        expect(schema.find_attribute_step(name) is None, lambda: f"a step for {name}")
    if len(alone) > 1 and len(steps) > 1:
        ctx.hit("steps", *["group"] * any(g for step in steps for _, g in step[0]))


QUICK = 4
SUBS = [
    Sub("steps", stepped(), judge_steps, quick=400, shards=2, rule="several steps and attributes"),
    Sub("deep", st.tuples(NESTED, st.sampled_from(NAMES), NESTED), judge_deep, quick=1500, shards=2,
        rule="an annotation in another"),
    Sub("valid", st.tuples(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(sorted(KINDS))), max_size=4,
                                    unique_by=lambda a: a[0]),
                           st.sampled_from([None] + sorted(WRONG)), st.integers(0, 4)), judge_valid, quick=300,
        rule="a wrong declaration"),
    Sub("class", members(), judge_class, quick=900, shards=3, rule="two arguments or more"),
    Sub("method", members(), judge_method, quick=900, shards=3, rule="two arguments or more"),
]
