""" P25: each block, alone, gives what it announces, each time, also copied, reloaded or made again by its script. """
import copy
import inspect
import io
import json
import math
import typing
import zipfile

from hypothesis import strategies as st

import vblocks
import vtwin
from engine import Sub, expect
from dessia_common.core import DessiaFilter
from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import (AttributeType, CadViewType, ClassMethodType, MarkdownType, MethodType, PlotDataType)
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Variable, Workflow

INTS = st.integers(-3, 40)
FLOATS = st.sampled_from([0., 1., -2.5, 0.125, 1e9])
TEXTS = st.sampled_from(["", "a", "steel", "é 'x\"", "a,b", "1"])
ANY = st.recursive(st.one_of(INTS, FLOATS, TEXTS, st.none(), st.booleans()),
                   lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.sampled_from("abc"), s, max_size=2)),
                   max_leaves=4)
GEARS = st.tuples(st.sampled_from(["Gear", "Sun"]), INTS, FLOATS, TEXTS)
TRAINS = st.tuples(st.just("Train"), st.lists(GEARS, min_size=1, max_size=3), GEARS)


def actual(value):
    """ Recipe -> what the block is given. """
    if isinstance(value, tuple) and value and value[0] in ("Gear", "Sun"):
        return getattr(vblocks, value[0])(value[1], value[2], value[3], name="g")
    if isinstance(value, tuple) and value and value[0] == "Train":
        return vblocks.Train([actual(g) for g in value[1]], actual(value[2]), {"k": 1.5}, name="t")
    if isinstance(value, tuple) and value and value[0] == "file":
        stream = StringFile(value[1]) if isinstance(value[2], str) else BinaryFile(value[1])
        stream.write(value[2])
        return stream
    if isinstance(value, list):
        return [actual(v) for v in value]
    return value


def flat(value):
    """ Comparable picture of a value, types included. """
    if isinstance(value, (StringFile, BinaryFile)):
        content = value.getvalue()
        if value.filename.endswith(".zip"):
            with zipfile.ZipFile(io.BytesIO(content)) as archive:
                content = sorted((n, archive.read(n)) for n in archive.namelist())
        return type(value).__name__, value.filename, content
    if hasattr(value, "__dict__") and not isinstance(value, type):
        return type(value).__name__, {k: flat(v) for k, v in vars(value).items() if not k.startswith("_")}
    if isinstance(value, dict):
        return {k: flat(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return type(value).__name__, [flat(v) for v in value]
    if isinstance(value, float) and math.isnan(value):
        return "nan"
    return type(value).__name__, value


# --- Blocks standing for a callable ----------------------------------------------------------------------------------

ANNOTATED = {int: INTS, float: FLOATS, str: TEXTS, typing.List[str]: st.lists(TEXTS, max_size=2),
             typing.List[float]: st.lists(FLOATS, max_size=3), typing.Optional[float]: st.one_of(st.none(), FLOATS),
             typing.Dict[str, float]: st.dictionaries(st.sampled_from("xyz"), FLOATS, max_size=2),
             typing.List[vblocks.Gear]: st.lists(GEARS, max_size=2), vblocks.Gear: GEARS}

METHODS = ["ratio", "describe", "polynomial", "limits", "bare", "nothing", "twin"]
STATICS = ["standard", "exact", "mean", "scale", "table"]


def parameters(function):
    """ Arguments a block stands for: [(name, annotation, default)]. """
    hints = typing.get_type_hints(function)
    found = []
    for name, parameter in inspect.signature(function).parameters.items():
        if name not in ("self", "cls", "progress_callback"):
            found.append((name, hints[name], parameter.default))
    return found


def target(kind, params):
    class_ = getattr(vblocks, params[0])
    return class_.__init__ if kind == "instantiate" else getattr(class_, params[1])


DOCUMENTED = {("instantiate", "Gear"): {"teeth": "How many teeth", "material": "What it is made of"},
              ("method", "ratio"): {"other_teeth": "Of the other one"},
              ("class method", "standard"): {"size": "How large"}}
CALLABLES = st.one_of(
    st.tuples(st.just("instantiate"), st.tuples(st.sampled_from(["Gear", "Sun", "Train", "Alone"]))),
    st.tuples(st.just("method"), st.tuples(st.sampled_from(["Gear", "Sun"]), st.sampled_from(METHODS))),
    st.tuples(st.just("class method"), st.tuples(st.sampled_from(["Gear", "Sun"]), st.sampled_from(STATICS))))


@st.composite
def callables(draw, only=None):
    kind, params = draw(CALLABLES if only is None else CALLABLES.filter(lambda c: c[0] == only))
    values = []
    if kind == "method":
        values.append(draw(GEARS.filter(lambda g: params[0] == "Gear" or g[0] == "Sun")))
    for _, annotation, default in parameters(target(kind, params)):
        left = default is not inspect.Parameter.empty and draw(st.integers(0, 2)) == 0
        values.append(("default",) if left else draw(ANNOTATED[annotation]))
    return kind, params, values


def make(kind, params, name="the block"):
    common = {"name": name, "position": (1., 2.)}
    if kind == "instantiate":
        return wb.InstantiateModel(getattr(vblocks, params[0]), **common)
    if kind == "method":
        return wb.ModelMethod(MethodType(getattr(vblocks, params[0]), params[1]), **common)
    if kind == "class method":
        return wb.ClassMethod(ClassMethodType(getattr(vblocks, params[0]), params[1]), **common)
    if kind == "sequence":
        return wb.Sequence(params, **common)
    if kind == "concatenate":
        return wb.Concatenate(params, **common)
    if kind == "unpacker":
        return wb.Unpacker(list(params), **common)
    if kind == "flatten":
        return wb.Flatten(**common)
    if kind == "product":
        return wb.Product(params, **common)
    if kind == "filter":
        return wb.Filter([DessiaFilter(*f) for f in params[0]], params[1], **common)
    if kind == "sum":
        return wb.Sum(params, **common)
    if kind == "substraction":
        return wb.Substraction(**common)
    if kind == "strings":
        return wb.ConcatenateStrings(params[0], params[1], **common)
    if kind == "attribute":
        return wb.ModelAttribute(params, **common)
    if kind == "get":
        return wb.GetModelAttribute(AttributeType(vblocks.Gear, params), **common)
    if kind == "set":
        return wb.SetModelAttribute(AttributeType(vblocks.Gear, params), **common)
    if kind == "markdown":
        return wb.Markdown(MarkdownType(vblocks.Gear, params[0]), load_by_default=params[1], **common)
    if kind == "cad":
        return wb.CadView(CadViewType(vblocks.Gear, "Solid"), load_by_default=params, **common)
    if kind == "plot":
        return wb.PlotData(PlotDataType(vblocks.Gear, "Plot"), load_by_default=params, **common)
    if kind == "export":
        text, filename, extension, *others = params
        method = MethodType(vblocks.Gear, "write" if (others or params)[0] else "dump")
        return wb.Export(method, text, extension, filename, **common)
    if kind == "multi plot":
        return wb.MultiPlot(params[0], list(params[1]), load_by_default=params[2], **common)
    if kind == "multi object":
        views = [wb.ScatterView(a, name=n) if k == "scatter" else wb.ParallelView(list(a), name=n) for k, a, n in params[1]]
        return wb.MultiObject(params[0], views, load_by_default=params[2], **common)
    if kind == "archive":
        return wb.Archive(params[0], params[1], **common)
    if kind == "workflow":
        return wb.WorkflowBlock(inner(params), **common)
    if kind == "for each":
        return wb.ForEach(wb.WorkflowBlock(inner(params[0]), name="inner"), params[1], **common)
    raise ValueError(kind)


def inner(params):
    """ A gear is made, then asked for its polynomial: five inputs, in an order that the pipes tell. """
    gear = wb.InstantiateModel(vblocks.Gear, name="gear")
    values = wb.ModelMethod(MethodType(vblocks.Gear, "polynomial"), name="values")
    total = wb.Sequence(2, name="pack")
    pipes = [Pipe(gear.outputs[0], values.inputs[0]), Pipe(values.outputs[0], total.inputs[params[0]])]
    blocks = [gear, values, total]
    return Workflow(blocks[params[1]:] + blocks[:params[1]], pipes, total.outputs[0], name="inner")


def inner_result(params, values):
    """ Same, by hand. """
    free = {"gear": ["teeth", "module", "material", "marks", "name"], "values": ["first", "second", "third", "fourth"],
            "pack": ["other"]}
    order = ["gear", "values", "pack"]
    order = order[params[1]:] + order[:params[1]]
    named = dict(zip([f for b in order for f in free[b]], values))
    found = [named["module"], named["first"], named["second"], named["third"], named["fourth"]]
    return [found, named["other"]] if params[0] == 0 else [named["other"], found]


def inner_values(params):
    kinds = {"gear": [INTS, FLOATS, TEXTS, st.none(), TEXTS], "values": [FLOATS] * 4, "pack": [ANY]}
    order = ["gear", "values", "pack"]
    order = order[params[1]:] + order[:params[1]]
    return [s for b in order for s in kinds[b]]


def reference(kind, params, values):
    """ What the outputs should be, from fresh values. """
    if kind in ("instantiate", "method", "class method"):
        start = 1 if kind == "method" else 0
        kwargs = {}
        for (name, _, default), value in zip(parameters(target(kind, params)), values[start:]):
            kwargs[name] = value
        if kind == "instantiate":
            return [getattr(vblocks, params[0])(**kwargs)]
        if kind == "method":
            return [getattr(values[0], params[1])(**kwargs), values[0]]
        return [getattr(getattr(vblocks, params[0]), params[1])(**kwargs)]
    if kind == "sequence":
        return [list(values)]
    if kind == "concatenate":
        return [[v for value in values for v in value]]
    if kind == "unpacker":
        return [values[0][i] for i in params]
    if kind == "flatten":
        return [[v for row in values[0] for v in row]]
    if kind == "product":
        found = [()]
        for value in values:
            found = [(*f, v) for f in found for v in value]
        return [found]
    if kind == "filter":
        kept = []
        for gear in values[0]:
            hits = [{"gt": a > b, "lt": a < b, "ge": a >= b, "le": a <= b, "eq": a == b, "ne": a != b}[o]
                    for a, o, b in ((getattr(gear, attribute), o, b) for attribute, o, b in params[0])]
            if {"and": all(hits), "or": any(hits), "xor": sum(hits) == 1}[params[1]]:
                kept.append(gear)
        return [kept]
    if kind == "sum":
        total = 0
        for value in values:
            total = total + value
        return [total]
    if kind == "substraction":
        return [values[0] - values[1]]
    if kind == "strings":
        return [params[1].join(values)]
    if kind in ("attribute", "get"):
        found = values[0]
        for segment in params.split("/"):
            if isinstance(found, list):
                found = found[int(segment)]
            else:
                found = found[segment] if isinstance(found, dict) else getattr(found, segment)
        return [found]
    if kind == "set":
        setattr(values[0], params, values[1])
        return [values[0]]
    if kind == "markdown":
        gear = values[0]
        return [f"{gear.material} {gear.teeth} #" if params[0] == "Text" else gear.material]
    if kind == "cad":
        return [{"meshes": [values[0].teeth, values[0].module]}]
    if kind == "plot":
        return [values[0].drawn()]
    if kind == "export":
        text, _, extension = params
        stream = (StringFile if text else BinaryFile)(f"{values[1]}.{extension}")
        getattr(values[0], "write" if text else "dump")(stream)
        return [stream]
    if kind == "archive":
        archive = BinaryFile(f"{values[-1]}.zip")
        with zipfile.ZipFile(archive, "w") as file:
            for value in values[:-1]:
                file.writestr(value.filename, value.getvalue())
        return [archive]
    if kind == "workflow":
        return [inner_result(params, values)]
    if kind == "for each":
        found = []
        for item in values[params[1]]:
            found.append(inner_result(params[0], values[:params[1]] + [item] + values[params[1] + 1:]))
        return [found]
    raise ValueError(kind)


INNER = st.tuples(st.integers(0, 1), st.integers(0, 2))


KINDS = ["sequence", "concatenate", "unpacker", "flatten", "product", "filter", "sum", "strings", "substraction",
         "attribute", "get", "set", "markdown", "cad", "plot", "export", "archive", "workflow", "for each"]


@st.composite
def others(draw, only=None):
    kind = only or draw(st.sampled_from(KINDS))
    params, values = None, []
    if kind in ("sequence", "concatenate", "product", "sum"):
        params = draw(st.integers(1, 3))
        if draw(st.integers(0, 4)) == 4:
            params = draw(st.integers(10, 13))
        each = {"sequence": st.one_of(ANY, GEARS), "concatenate": st.lists(st.one_of(ANY, GEARS), max_size=3),
                "product": st.lists(st.one_of(ANY, GEARS), max_size=3) if params < 4 else st.lists(INTS, min_size=1, max_size=1), "sum": st.one_of(INTS, FLOATS)}[kind]
        values = [draw(each) for _ in range(params)]
    elif kind == "unpacker":
        params = tuple(draw(st.lists(st.integers(-2, 2), min_size=1, max_size=3)))
        values = [draw(st.lists(st.one_of(ANY, GEARS), min_size=3, max_size=5))]
    elif kind == "flatten":
        values = [draw(st.lists(st.lists(st.one_of(ANY, GEARS, st.sampled_from([None, 0, [], ""])), max_size=3), max_size=3))]
    elif kind == "filter":
        params = (tuple(draw(st.lists(st.tuples(st.sampled_from(["teeth", "module"]), st.sampled_from(
            ["gt", "lt", "ge", "le", "eq", "ne"]), st.one_of(FLOATS, st.just(1234567.25))), min_size=1, max_size=3))),
            draw(st.sampled_from(["and", "or", "xor"])))
        if params[1] == "xor":
            params = (params[0][:2], "xor")
        values = [draw(st.lists(GEARS, max_size=4))]
    elif kind == "substraction":
        values = [draw(st.one_of(INTS, FLOATS)), draw(st.one_of(INTS, FLOATS))]
    elif kind == "strings":
        params = (draw(st.integers(1, 3)), draw(st.sampled_from(["", "-", "'", " "])))
        values = [draw(TEXTS) for _ in range(params[0])]
    elif kind == "attribute":
        if draw(st.booleans()):
            params, values = draw(st.sampled_from(["teeth", "module", "material", "marks", "name"])), [draw(GEARS)]
        else:
            params = draw(st.sampled_from(["gears/0/teeth", "first/material", "gears", "first", "names/k", "gears/0"]))
            values = [draw(TRAINS)]
    elif kind in ("get", "set"):
        params = draw(st.sampled_from(["teeth", "module", "material"]))
        values = [draw(GEARS)]
        if kind == "set":
            values.append(draw({"teeth": INTS, "module": FLOATS, "material": TEXTS}[params]))
    elif kind == "markdown":
        params, values = (draw(st.sampled_from(["Text", "Plain"])), draw(st.booleans())), [draw(GEARS)]
    elif kind in ("cad", "plot"):
        params, values = draw(st.booleans()), [draw(GEARS)]
    elif kind == "export":
        params = (draw(st.booleans()), draw(st.sampled_from(["out", "a b", "é"])), draw(st.sampled_from(["txt", "dat"])))
        values = [draw(GEARS), draw(st.one_of(st.just(("default",)), st.sampled_from(["x", "other name"])))]
    elif kind == "archive":
        params = (draw(st.sampled_from([1, 2, 3, 5])), draw(st.sampled_from(["arch", "z z"])))
        values = [("file", f"f{i}.txt", draw(st.one_of(TEXTS, st.binary(max_size=4)))) for i in range(params[0])]
        values.append(draw(st.one_of(st.just(("default",)), st.just("named"))))
    else:
        params = draw(INNER)
        wanted = inner_values(params)
        if kind == "for each":
            number = draw(st.integers(0, len(wanted) - 1))
            wanted[number] = st.lists(wanted[number], max_size=3)
            params = (params, number)
        values = [draw(s) for s in wanted]
    return kind, params, values


# --- Judgement -------------------------------------------------------------------------------------------------------

RETURNS = {"ratio": float, "describe": str, "polynomial": typing.List[float], "limits": typing.Tuple[float, float],
           "bare": None, "nothing": type(None), "twin": vblocks.Gear, "standard": vblocks.Gear, "exact": vblocks.Gear,
           "mean": float, "scale": typing.List[float], "table": typing.Dict[str, float]}


def judge_variables(kind, params, block):
    """ Variables are those of what the block stands for. """
    if kind in ("instantiate", "method", "class method"):
        wanted = parameters(target(kind, params))
        if kind == "method":
            wanted.insert(0, ("Model", getattr(vblocks, params[0]), inspect.Parameter.empty))
        expect([i.name for i in block.inputs] == [w[0] for w in wanted], lambda: f"inputs {[i.name for i in block.inputs]}")
        for variable, (name, annotation, default) in zip(block.inputs, wanted):
            expect(variable.type_ == annotation, lambda: f"type of {name}: {variable.type_}, not {annotation}")
            expect(variable.has_default_value is (default is not inspect.Parameter.empty), lambda: f"default of {name}")
            if variable.has_default_value:
                expect(variable.default_value == default and type(variable.default_value) is type(default),
                       lambda: f"default of {name}: {variable.default_value!r}")
            expect(not variable.locked, "an input starts locked")
        told = DOCUMENTED.get((kind, params[-1]), {})
        if params != ("Sun", "ratio"):
            for variable in block.inputs:
                expect(block.parse_input_doc(variable)["desc"].strip() == told.get(variable.name, ""),
                       lambda: f"documentation of {variable.name}: {block.parse_input_doc(variable)}")
        if kind == "instantiate":
            types = [getattr(vblocks, params[0])]
        else:
            types = [RETURNS[params[1]]] + ([getattr(vblocks, params[0])] if kind == "method" else [])
        expect([o.type_ for o in block.outputs] == types, lambda: f"outputs of types {[o.type_ for o in block.outputs]}")
    elif kind in ("get", "set"):
        type_ = {"teeth": int, "module": float, "material": str}[params]
        inputs, outputs = ([vblocks.Gear, type_], [vblocks.Gear]) if kind == "set" else ([vblocks.Gear], [type_])
        expect([i.type_ for i in block.inputs] == inputs and [o.type_ for o in block.outputs] == outputs, "types")
    elif kind in ("export", "archive"):
        expect(block.inputs[-1].default_value == params[1] and block.inputs[-1].type_ is str, "filename by default")
    elif kind in ("markdown", "cad", "plot"):
        expect(block.inputs[0].type_ is vblocks.Gear and len(block.inputs) == 1, "input of the display")


def judge(case, ctx):
    kind, params, recipe = case
    block = make(kind, params)
    judge_variables(kind, params, block)
    expect(block.name == "the block" and tuple(block.position) == (1., 2.),
           lambda: f"the block is {block.name!r} at {block.position}")
    expect(len(block.inputs) == len(recipe), lambda: f"{len(block.inputs)} inputs, not {len(recipe)}")
    defaults = [i for i, v in enumerate(recipe) if v == ("default",)]

    def given():
        return [block.inputs[i].default_value if i in defaults else actual(v) for i, v in enumerate(recipe)]

    expected = flat(reference(kind, params, given()))
    values = given()
    arguments = dict(zip(block.inputs, values))
    before = flat(values)
    dumped = json.dumps(block.to_dict(), sort_keys=True)
    found = flat(block.evaluate(dict(arguments)))
    expect(found == expected, lambda: f"{kind} {params} on {recipe} gives {found}, not {expected}")
    if kind != "set":
        expect(flat(values) == before, f"{kind}: evaluating changed the values given")
        keys = list(arguments)
        again = flat(block.evaluate(arguments))
        expect(again == expected, lambda: f"{kind}: evaluated again, gives {again}, not {expected}")
        expect(list(arguments) == keys and flat(list(arguments.values())) == before,
               f"{kind}: evaluating changed the arguments")
    expect(json.dumps(block.to_dict(), sort_keys=True) == dumped, f"{kind}: evaluating changed the block")
    # Alone in a workflow, copied, reloaded, made by its script
    for port in range(len(block.outputs)):
        workflow = Workflow([block], [], block.outputs[port], name="alone")
        made = {"workflow": workflow, "copied": workflow.copy(),
                "reloaded": Workflow.dict_to_object(json.loads(json.dumps(workflow.to_dict())))}
        script = {}
        exec(workflow.to_script(), script)  # The code under test writes it
        made["scripted"] = script["workflow"]
        for how, other in made.items():
            expect(other == workflow and workflow == other, f"{kind}: the {how} workflow differs")
            inputs = {i: actual(v) for i, v in enumerate(recipe) if i not in defaults}
            result = flat(other.run(inputs).output_value)
            expect(result == expected[1][port], lambda: f"{kind} {params}, {how}: {result}, not {expected[1][port]}")
    ctx.hit(kind)


def judge_equivalence(case, ctx):
    first, second = case
    one, other = make(first[0], first[1]), make(second[0], second[1])
    same = first[:2] == second[:2]
    workflows = [Workflow([b], [], b.outputs[0], name="w") for b in (one, other)]
    expect((workflows[0] == workflows[1]) is same and (workflows[1] == workflows[0]) is same,
           lambda: f"{first[:2]} and {second[:2]} equal: {not same}")
    if first[0] == second[0]:
        expect(one.equivalent(other) is same and other.equivalent(one) is same,
               lambda: f"{first[:2]} and {second[:2]} equivalent: {not same}")
        if same:
            expect(one.equivalent_hash() == other.equivalent_hash(), "equivalent blocks with other hashes")
        reloaded = Workflow.dict_to_object(json.loads(json.dumps(workflows[0].to_dict())))
        script = {}
        exec(workflows[0].to_script(), script)  # The code under test writes it
        for how, again in (("copied", workflows[0].copy()), ("reloaded", reloaded), ("scripted", script["workflow"])):
            expect(again == workflows[0] and (again == workflows[1]) is same, lambda: f"{how} {first[:2]}")
        ctx.hit(f"{first[0]} {'same' if same else 'different'}")


OWNED = {"instantiate": [()], "method": [("ratio",), ("describe",), ("limits",)], "class method": [("standard",), ("mean",)],
         "get": [("teeth",), ("material",)], "set": [("teeth",), ("material",)],
         "markdown": [("Text", False), ("Text", True), ("Plain", False)], "cad": [(True,)], "plot": [(True,)],
         "export": [(True, "out", "txt"), (False, "out", "txt")]}


def owned_block(owner, kind, params):
    """ Block on a class of one of the two modules. """
    class_ = getattr(vblocks if owner[0] == "blocks" else vtwin, owner[1])
    common = {"name": "the block", "position": (1., 2.)}
    if kind == "instantiate":
        return wb.InstantiateModel(class_, **common)
    if kind == "method":
        return wb.ModelMethod(MethodType(class_, params[0]), **common)
    if kind == "class method":
        return wb.ClassMethod(ClassMethodType(class_, params[0]), **common)
    if kind in ("get", "set"):
        return (wb.GetModelAttribute if kind == "get" else wb.SetModelAttribute)(AttributeType(class_, params[0]), **common)
    if kind == "markdown":
        return wb.Markdown(MarkdownType(class_, params[0]), load_by_default=params[1], **common)
    if kind == "cad":
        return wb.CadView(CadViewType(class_, "Solid"), load_by_default=params[0], **common)
    if kind == "plot":
        return wb.PlotData(PlotDataType(class_, "Plot"), load_by_default=params[0], **common)
    return wb.Export(MethodType(class_, "write" if params[0] else "dump"), params[0], params[2], params[1], **common)


@st.composite
def owned(draw):
    kind = draw(st.sampled_from(sorted(OWNED)))
    owners = st.tuples(st.sampled_from(["blocks", "twin"]), st.sampled_from(["Gear", "Gear", "Sun"]))
    params = st.sampled_from(OWNED[kind])
    first = draw(params)
    return kind, draw(owners), first, draw(owners), draw(st.one_of(st.just(first), params))


def judge_owned(case, ctx):
    """ A block is that of a class, which others of the same name are not. """
    kind, *ends = case
    ends = [tuple(ends[:2]), tuple(ends[2:])]
    one, other = [owned_block(owner, kind, params) for owner, params in ends]
    same = ends[0] == ends[1]
    expect(one.equivalent(other) is same and other.equivalent(one) is same,
           lambda: f"{kind} of {ends[0]} and of {ends[1]} equivalent: {not same}")
    workflows = [Workflow([b], [], b.outputs[0], name="w") for b in (one, other)]
    expect((workflows[0] == workflows[1]) is same and (workflows[1] == workflows[0]) is same,
           lambda: f"workflows of {kind} of {ends[0]} and of {ends[1]} equal: {not same}")
    if same:
        expect(one.equivalent_hash() == other.equivalent_hash() and hash(workflows[0]) == hash(workflows[1]), "hashes")
    for workflow, other in (workflows, workflows[::-1]):
        reloaded = Workflow.dict_to_object(json.loads(json.dumps(workflow.to_dict())))
        expect(reloaded == workflow and (reloaded == other) is same, lambda: f"{kind} of {ends}: reloaded")
        script = {}
        exec(workflow.to_script(), script)  # The code under test writes it
        expect(script["workflow"] == workflow and (script["workflow"] == other) is same, lambda: f"{kind} of {ends}: scripted")
    ctx.hit("same" if same else "twins" if ends[0][0][1] == ends[1][0][1] and ends[0][1] == ends[1][1] else "different")


LAYERS = st.tuples(st.sampled_from(["workflow", "for each"]), st.integers(0, 5),
                   st.lists(st.sampled_from(["teeth", "other_teeth", "size", "material", "module"]), max_size=1))
INNERMOST = st.lists(st.sampled_from([("instantiate", ("Gear",)), ("method", ("Gear", "ratio")),
                                      ("class method", ("Gear", "standard")), ("class method", ("Gear", "mean"))]),
                     min_size=1, max_size=3)


def judge_nested(case, ctx):
    """ However deep an argument is, its input is documented as it is. """
    innermost, shared, layers = case
    blocks = [make(kind, params, name=f"block {i}") for i, (kind, params) in enumerate(innermost)]
    told = {v: DOCUMENTED.get((kind, params[-1]), {}).get(v.name, "")
            for block, (kind, params) in zip(blocks, innermost) for v in block.inputs}
    for depth, (layer, number, fed) in enumerate([("workflow", 0, shared)] + layers):
        if depth:
            block = wb.WorkflowBlock(workflow, name=f"inner {depth}", position=(0., 0.))
            if layer == "for each":
                block = wb.ForEach(block, number % len(block.inputs), name=f"loop {depth}", position=(0., 0.))
            told = {v: told[i] for v, i in zip(block.inputs, workflow.inputs)}
            blocks = [block]
        variables = [Variable(name=f"{name} {depth}") for name in fed]
        pipes = []
        for variable, name in zip(variables, fed):
            targets = [v for b in blocks for v in b.inputs if v.name.startswith(name)]
            pipes.extend(Pipe(variable, v) for v in targets)
            if targets:
                told[variable] = ""
        workflow = Workflow(blocks, pipes, blocks[-1].outputs[0], name=f"level {depth}")
        for input_ in workflow.inputs:
            found = workflow.input_schema(input_).documentation["desc"].strip()
            expect(found == told[input_], lambda: f"{input_.name} at level {depth} is told {found!r}, not {told[input_]!r}")
    for where, other in (("copied", workflow.copy()),
                         ("reloaded", Workflow.dict_to_object(json.loads(json.dumps(workflow.to_dict()))))):
        for input_, again in zip(workflow.inputs, other.inputs):
            found = other.input_schema(again).documentation["desc"].strip()
            expect(found == told[input_], lambda: f"{input_.name} {where} is told {found!r}, not {told[input_]!r}")
    if layers and any(told[i] for i in workflow.inputs):
        ctx.hit(f"{len(layers)} levels", *[layer for layer, _, _ in layers], *(["shared"] if shared else []))


MARKS = st.sampled_from(["txt", "dat", "t"])
FEW = st.sampled_from([1, 2, 3, 11])
PARAMS = {
    "instantiate": st.tuples(st.sampled_from(["Gear", "Sun", "Train", "Alone"])),
    "method": st.tuples(st.sampled_from(["Gear", "Sun"]), st.sampled_from(METHODS)),
    "class method": st.tuples(st.sampled_from(["Gear", "Sun"]), st.sampled_from(STATICS)),
    "sequence": FEW, "concatenate": FEW, "product": FEW, "sum": FEW, "flatten": st.none(), "substraction": st.none(),
    "unpacker": st.lists(st.integers(-2, 2), min_size=1, max_size=3).map(tuple),
    "filter": st.tuples(
        st.lists(st.tuples(st.sampled_from(["teeth", "module", "name"]), st.sampled_from(["gt", "lt", "ge", "eq"]),
                           st.sampled_from([0., 1., 1.5, 1000000.5])), min_size=1, max_size=2).map(tuple),
        st.sampled_from(["and", "or", "xor"])),
    "strings": st.tuples(FEW, st.sampled_from(["", "-", " ", "'", "- "])),
    "attribute": st.sampled_from(["teeth", "marks", "name", "gears/0", "gears/1", "gears"]),
    "get": st.sampled_from(["teeth", "module", "material", "marks"]), "set": st.sampled_from(["teeth", "module", "material"]),
    "markdown": st.tuples(st.sampled_from(["Text", "Plain"]), st.booleans()), "cad": st.booleans(),
    "plot": st.booleans(), "export": st.tuples(st.booleans(), MARKS, MARKS, st.booleans()), "archive": st.tuples(FEW, MARKS),
    "workflow": INNER, "for each": st.tuples(INNER, st.integers(0, 9)),
    "multi plot": st.tuples(MARKS, st.lists(st.sampled_from(["teeth", "module", "marks"]), min_size=2, max_size=3).map(tuple),
                            st.booleans()),
    "multi object": st.tuples(MARKS, st.lists(st.tuples(
        st.sampled_from(["scatter", "parallel"]), st.permutations(["teeth", "module"]).map(tuple), st.just("view")),
        max_size=3).map(tuple), st.booleans())}


@st.composite
def pairs(draw):
    """ Two blocks, mostly of one kind and mostly alike. """
    kind = draw(st.sampled_from(sorted(PARAMS)))
    first = draw(PARAMS[kind])
    how = draw(st.integers(0, 7))
    if how == 0:
        other = draw(st.sampled_from(sorted(PARAMS)))
        return (kind, first), (other, draw(PARAMS[other]))
    if how == 1:
        return (kind, first), (kind, first)
    second = draw(PARAMS[kind])
    return (kind, first), (kind, second if how == 2 else draw(near(kind, first, second)))


@st.composite
def near(draw, kind, first, second):
    """ Parameters which are the first ones, but for one thing at most. """
    if kind == "unpacker":
        return tuple(draw(st.permutations(first))) + draw(st.sampled_from([(), first[:1]]))
    if isinstance(first, tuple) and len(first) == len(second) > 1:
        spot = draw(st.integers(0, len(first) - 1))
        return first[:spot] + second[spot:spot + 1] + first[spot + 1:]
    return draw(PARAMS[kind].filter(lambda p: p != first)) if first is not None else None


QUICK = 3
SUBS = [
    Sub("nested", st.tuples(INNERMOST, LAYERS.map(lambda x: x[2]), st.lists(LAYERS, max_size=3)), judge_nested, quick=150,
        thorough=3000, rule="a documented input under a layer or more"),
    Sub("callables", callables(), judge, quick=250, thorough=4000, shards=3, rule="every case"),
    Sub("others", others(), judge, quick=1000, thorough=12000, shards=4, rule="every case"),
    Sub("equivalence", pairs(), judge_equivalence, quick=1800, thorough=20000, shards=2, rule="two blocks of one kind"),
    Sub("classes", owned(), judge_owned, quick=400, thorough=6000, shards=2, rule="every case"),
]
