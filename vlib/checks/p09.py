""" P09: an annotation written as text is read back the same. """
from typing import Any, Dict, List, Literal, Optional, Tuple, Type, Union

from hypothesis import strategies as st

import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance, Mass
from dessia_common.schemas.core import deserialize_annotation, pretty_annotation, serialize_annotation
from dessia_common.typings import (AttributeType, CadViewType, ClassAttributeType, ClassMethodType, InstanceOf, KeyOf,
                                   MarkdownType, MethodType, PlotDataType)
from dessia_common.utils.helpers import full_classname, get_python_class_from_class_name

BUILTINS = {"int": int, "float": float, "str": str, "bool": bool}
CLASSES = {"Leaf": vmodels.Leaf, "SLeaf": vmodels.SLeaf, "Branch": vmodels.Branch, "DessiaObject": DessiaObject}
OTHERS = {"Distance": Distance, "Mass": Mass, "StringFile": StringFile, "BinaryFile": BinaryFile, "Any": Any,
          "Type": Type}
PLAIN = {**BUILTINS, **CLASSES, **OTHERS}
GENERICS = {"InstanceOf": InstanceOf, "MethodType": MethodType, "ClassMethodType": ClassMethodType,
            "AttributeType": AttributeType, "ClassAttributeType": ClassAttributeType, "Type": Type,
            "CadViewType": CadViewType, "PlotDataType": PlotDataType, "MarkdownType": MarkdownType}
# Some of them may be about no class in particular.
FREE = ("MethodType", "ClassMethodType", "AttributeType", "ClassAttributeType")
CHOICES = st.one_of(st.sampled_from(["a", "b", "one two", "x, y", "v[1]", "Tuple[int, ...]", "", "é", " lead", "a,b"]),
                    st.text(alphabet="abAB 01,[]_-.:", max_size=6))


def build(recipe):
    kind = recipe[0]
    if kind == "plain":
        return PLAIN[recipe[1]]
    if kind == "generic":
        return GENERICS[recipe[1]][CLASSES[recipe[2]] if recipe[2] else Type]
    if kind == "literal":
        return Literal[tuple(recipe[1])]
    if kind == "keyof":
        return KeyOf[{key: 1 for key in recipe[1]}]
    args = tuple(build(r) for r in recipe[1])
    if kind == "list":
        return List[args[0]]
    if kind == "dict":
        return Dict[args]
    if kind == "tuple":
        return Tuple[args]
    if kind == "many":
        return Tuple[args[0], ...]
    if kind == "union":
        return Union[args]
    raise ValueError(kind)


def depth(recipe):
    return 1 + max((depth(r) for r in recipe[1]), default=0) if recipe[0] in ("list", "dict", "tuple", "many", "union") \
        else 0


LEAVES = st.one_of(st.tuples(st.just("plain"), st.sampled_from(sorted(PLAIN))),
                   st.tuples(st.just("plain"), st.sampled_from(sorted(BUILTINS))),
                   st.tuples(st.just("generic"), st.sampled_from(sorted(GENERICS)), st.sampled_from(sorted(CLASSES))),
                   st.tuples(st.just("generic"), st.sampled_from(FREE), st.none()),
                   st.tuples(st.sampled_from(["literal", "keyof"]),
                             st.lists(CHOICES, min_size=1, max_size=4, unique=True)))


def _nest(inner):
    def of(kind, low, high):
        return st.tuples(st.just(kind), st.lists(inner, min_size=low, max_size=high))
    return st.one_of(of("list", 1, 1), of("many", 1, 1), of("tuple", 1, 4), of("dict", 2, 2), of("union", 2, 4))


ANNOTATIONS = st.recursive(LEAVES, _nest, max_leaves=7)


def judge_roundtrip(case, ctx):
    annotation = build(case)
    text = serialize_annotation(annotation)
    expect(isinstance(text, str), "not a text")
    again = deserialize_annotation(text)
    expect(again == annotation, lambda: f"{annotation} is written {text!r}, read {again}")
    expect(deserialize_annotation(serialize_annotation(again)) == annotation, "writing again gives another text")
    if case[0] in ("literal", "keyof"):
        expect(again.__args__ == annotation.__args__, lambda: f"choices of {text} read as {again}")
    # A default value of None makes it optional, which changes nothing to the type.
    if annotation is not Any:
        optional = serialize_annotation(Optional[annotation])
        expect(deserialize_annotation(optional) == annotation, lambda: f"Optional[{annotation}] is written {optional}")
    if depth(case) > 1:
        ctx.hit(case[0])
    ctx.label(f"depth {depth(case)}")


def judge_distinct(case, ctx):
    """ Two annotations have the same text only if they are the same. """
    first, second = build(case[0]), build(case[1])
    same = serialize_annotation(first) == serialize_annotation(second)
    # Members of a union may be written in several orders.
    if same:
        expect(first == second, lambda: f"{first} and {second} are written the same")
    if "union" not in repr(case) and "iteral" not in repr(case):
        expect(same or first != second, lambda: f"{first} is written two ways")
    if case[0] != case[1]:
        ctx.hit()


def judge_pretty(case, ctx):
    """ The text for humans is the text without the modules. """
    annotation = build(case)
    text, pretty = serialize_annotation(annotation), pretty_annotation(annotation)
    if "iteral" in repr(case):
        return
    for class_ in (*CLASSES.values(), Distance, Mass, StringFile, BinaryFile):
        text = text.replace(f"{class_.__module__}.{class_.__name__}", class_.__name__)
    text = text.replace("typing.Any", "Any")
    expect(pretty.replace("typing.Any", "Any") == text, lambda: f"{pretty!r} for {text!r}")
    if depth(case):
        ctx.hit()


MEMBERS = {"Leaf": ["to_dict", "copy", "value"], "Branch": ["check_list", "children"], "SLeaf": ["label"]}


def judge_values(case, ctx):
    """ Methods and attributes named in data. """
    kind, class_name, pick = case
    class_, name = CLASSES[class_name], MEMBERS[class_name][pick % len(MEMBERS[class_name])]
    value = {"MethodType": MethodType, "ClassMethodType": ClassMethodType, "AttributeType": AttributeType,
             "ClassAttributeType": ClassAttributeType}[kind](class_, name)
    again = type(value).dict_to_object(value.to_dict())
    expect(type(again) is type(value) and again.class_ is class_ and again.name == name,
           lambda: f"{value.to_dict()} reads as {again.to_dict()}")
    for one in (value, again):
        if "Method" in kind and callable(getattr(class_, name, None)):
            expect(one.get_method() == getattr(class_, name), "not the method named")
            ctx.hit(kind)
        if "Attribute" in kind and name in ("value", "children", "label"):
            import inspect
            expect(one.type_ == inspect.signature(class_).parameters[name].annotation, "not the type of the attribute")
            ctx.hit(kind)


def judge_names(case, ctx):
    """ Classes by their full names. """
    class_ = {**CLASSES, **{k: v for k, v in OTHERS.items() if k not in ("Any", "Type")}}[case]
    name = full_classname(class_, "class")
    expect(get_python_class_from_class_name(name) is class_, lambda: f"{name} is not the name of {class_}")
    ctx.hit()


QUICK = 4
SUBS = [
    Sub("roundtrip", ANNOTATIONS, judge_roundtrip, quick=2500, shards=3, rule="at least two levels of nesting"),
    Sub("distinct", st.tuples(ANNOTATIONS, ANNOTATIONS), judge_distinct, quick=1200, shards=2,
        rule="two different recipes"),
    Sub("pretty", ANNOTATIONS, judge_pretty, quick=800, rule="nested"),
    Sub("values", st.tuples(st.sampled_from(["MethodType", "ClassMethodType", "AttributeType", "ClassAttributeType"]),
                            st.sampled_from(sorted(MEMBERS)), st.integers(0, 5)), judge_values, quick=200,
        rule="the member exists"),
    Sub("names", st.sampled_from(sorted(set(PLAIN) - set(BUILTINS) - {"Any", "Type"})), judge_names, quick=30, rule="always"),
]
