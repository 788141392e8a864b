""" P10: a type matches another when every value of the first is acceptable where the second is expected. """
from typing import Any, Dict, List, Optional, Tuple, Union

from hypothesis import strategies as st

import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaObject, PhysicalObject
from dessia_common.measures import Distance, Measure
from dessia_common.utils.types import typematch
from dessia_common.workflow.blocks import Sequence
from dessia_common.workflow.core import Workflow

PLAIN = {"int": int, "float": float, "str": str, "bool": bool, "Leaf": vmodels.Leaf, "SLeaf": vmodels.SLeaf,
         "Branch": vmodels.Branch, "DessiaObject": DessiaObject, "PhysicalObject": PhysicalObject,
         "Measure": Measure, "Distance": Distance}


def build(recipe):
    kind = recipe[0]
    if kind == "plain":
        return PLAIN[recipe[1]]
    if kind == "any":
        return Any
    args = tuple(build(r) for r in recipe[1])
    if kind == "list":
        return List[args[0]]
    if kind == "dict":
        return Dict[args]
    if kind == "tuple":
        return Tuple[args]
    if kind == "many":
        return Tuple[args[0], ...]
    if kind == "optional":
        return Optional[args[0]]
    return Union[args]


def matches(first, second):
    """ Reference: None when the documentation does not settle the answer. """
    while first[0] == "optional":
        first = first[1][0]
    while second[0] == "optional":
        second = second[1][0]
    if second[0] == "any" or first == second:
        return True
    if "union" in (first[0], second[0]):
        if second[0] == "union" and first[0] == "plain":
            return any(matches(first, s) for s in second[1])
        if first[0] == "union" and second[0] == "union" and \
                all(r[0] == "plain" for r in first[1] + second[1]):
            return set(first[1]) <= set(second[1])
        if first[0] == "union" and second[0] == "plain":
            return False
        return None
    if first[0] == "any":
        return None
    if first[0] == "plain" and second[0] == "plain":
        one, two = PLAIN[first[1]], PLAIN[second[1]]
        return issubclass(one, two) or (one is int and two is float)
    if second[0] == "many" and first[0] in ("many", "tuple"):
        return every(matches(a, second[1][0]) for a in first[1])
    if first[0] != second[0]:
        return False
    if len(first[1]) != len(second[1]):
        return False
    return every(matches(a, b) for a, b in zip(first[1], second[1]))


def every(answers):
    answers = list(answers)
    if False in answers:
        return False if None not in answers else None
    return None if None in answers else True


UNIONS = st.lists(st.tuples(st.just("plain"), st.sampled_from(["int", "str", "Leaf", "Branch", "Distance"])), min_size=2,
                  max_size=3, unique=True)
LEAVES = st.one_of(st.tuples(st.just("plain"), st.sampled_from(sorted(PLAIN))), st.tuples(st.just("plain"), st.sampled_from(sorted(PLAIN))),
                   st.just(("any",)), st.tuples(st.just("union"), UNIONS))


def _nest(inner):
    def of(kind, low, high):
        return st.tuples(st.just(kind), st.lists(inner, min_size=low, max_size=high))
    return st.one_of(of("list", 1, 1), of("many", 1, 1), of("tuple", 1, 3), of("dict", 2, 2), of("optional", 1, 1))


TYPES = st.recursive(LEAVES, _nest, max_leaves=5)


@st.composite
def pairs(draw):
    """ A type, and another one close to it. """
    first = draw(TYPES)
    if draw(st.integers(0, 4)) == 0:
        return first, draw(TYPES)

    def near(recipe):
        pick = draw(st.integers(0, 11))
        if pick == 0:
            return draw(TYPES)
        if pick == 1:
            return ("any",)
        if pick == 2 and recipe[0] != "any":
            return ("optional", [recipe])
        if recipe[0] == "plain":
            if pick < 6:
                return ("plain", draw(st.sampled_from(sorted(PLAIN))))
            if pick == 6:
                return ("union", draw(UNIONS))
            return recipe
        if recipe[0] == "any":
            return recipe
        if recipe[0] == "union":
            return ("union", recipe[1][:2] + [r for r in draw(UNIONS) if r not in recipe[1][:2]]) if pick < 5 else recipe
        if recipe[0] == "tuple" and pick == 3:
            return ("many", [near(recipe[1][0])])
        if recipe[0] == "tuple" and pick == 4:
            return ("tuple", recipe[1] + [("plain", "int")])
        return (recipe[0], [near(r) for r in recipe[1]])
    return first, near(first)


def judge_match(case, ctx):
    first, second = case
    for one, two in ((first, second), (second, first), (first, first)):
        wanted = matches(one, two)
        if wanted is None:
            continue
        found = typematch(build(one), build(two))
        expect(found == wanted, lambda: f"{build(one)} against {build(two)} is {found}")
    if first != second and matches(first, second):
        ctx.hit("match")
    elif matches(first, second) is False:
        ctx.label("no match")
        if first[0] == second[0] and first[0] not in ("plain", "any"):
            ctx.hit("same shape, no match")


def judge_any(case, ctx):
    expect(typematch(build(case), Any), "does not match Any")
    if case[0] != "plain":
        ctx.hit()


def judge_workflow(case, ctx):
    """ Pipes proposed between variables of a workflow. """
    types = case
    blocks = [Sequence(1, f"s{i}") for i in range(len(types))]
    for block, recipe in zip(blocks, types):
        block.inputs[0].type_ = build(recipe)
        block.outputs[0].type_ = build(recipe)
    workflow = Workflow(blocks, [], blocks[0].outputs[0])
    found = workflow.match_variables(serialize_output=False)
    for one, recipe in zip(blocks, types):
        got = found.get(one.outputs[0], [])
        for two, other in zip(blocks, types):
            wanted = one is not two and matches(recipe, other)
            if wanted is None:
                continue
            present = any(v is two.inputs[0] for v in got)
            expect(present == wanted, lambda: f"{build(recipe)} to {build(other)}: {present}, should be {wanted}")
            if wanted and recipe != other:
                ctx.hit()


QUICK = 4
SUBS = [
    Sub("match", pairs(), judge_match, quick=4000, shards=4,
        rule="two different types which match, or of one shape which do not"),
    Sub("any", TYPES, judge_any, quick=300, rule="not a plain type"),
    Sub("workflow", st.lists(TYPES, min_size=2, max_size=3), judge_workflow, quick=300, shards=2,
        rule="a match between different types"),
]
