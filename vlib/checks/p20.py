""" P20: a workflow reloaded or copied is the same workflow, and different workflows are not equal. """
import copy
import json

from hypothesis import strategies as st

import workflows as wf
import vparts
from engine import Sub, expect
from dessia_common.displays import DisplaySetting
from dessia_common.workflow.core import Step, Workflow

LABELS = st.sampled_from(["", "Size", "é", "a label"])


@st.composite
def decorated(draw, **kwargs):
    """ A recipe, labels of inputs, steps, texts. """
    recipe = draw(wf.recipes(**kwargs))
    keys = list(recipe["values"])
    labels = {k: draw(LABELS) for k in keys}
    steps = []
    left = draw(st.permutations(keys))
    for i in range(draw(st.integers(0, 3))):
        number = draw(st.integers(0, 3))
        grouped = draw(st.none() | st.integers(0, number))
        display = None if grouped is None else (grouped, draw(st.integers(0, 3)), draw(st.sampled_from(["Graph", "Swapped"])))
        steps.append((f"step {i}", left[:number], draw(st.sampled_from(["", "doc", "other doc"])), display))
        left = left[number:]
    recipe["bare"] = [k for k in keys if recipe["values"][k][0] == "given" and wf.has_default(recipe, k) and draw(st.booleans())]
    recipe["objects"] = draw(st.booleans())
    recipe["outputs"] = draw(st.lists(LABELS, min_size=1, max_size=4))
    return recipe, labels, steps, draw(st.sampled_from(["", "short"])), draw(st.sampled_from(["", "# long\ntext"]))


def assemble(case):
    recipe, labels, steps, description, documentation = case
    built = wf.Built(recipe)
    for key in recipe.get("bare", []):
        built.variable(key).unlock(keep_default=False)
    if recipe.get("objects"):
        for key, (mode, value) in recipe["values"].items():
            if mode == "given" and wf.key_types(recipe)[key] in ("part", "parts", "nums"):
                built.variable(key).default_value = wf.actual(value)
    outputs = [o for block in built.parts for o in block.outputs]
    for i, output in enumerate(outputs):
        output.label = recipe.get("outputs", [""])[i % len(recipe.get("outputs", [""]))]
    for key, label in labels.items():
        built.variable(key).label = label
    old = built.workflow
    made = []
    for i, (label, keys, doc, display) in enumerate(steps):
        inputs = [built.variable(k) for k in keys]
        made.append(Step(label=label, inputs=inputs, documentation=doc, group_id=f"g{i}", id_=f"s{i}"))
        if display is not None:
            setting = DisplaySetting(display[2], "plot_data", display[2].lower())
            made[-1].add_display_setting(setting, inputs[:display[0]], display[1])
    built.workflow = Workflow(old.blocks, old.pipes, old.output, steps=made, description=description,
                              documentation=documentation, name="wf")
    return built


def dumped(workflow):
    return json.loads(json.dumps(workflow.to_dict()))


def judge_same(case, ctx):
    recipe = case[0]
    built = assemble(case)
    workflow = built.workflow
    before = dumped(workflow)
    others = {"reloaded": Workflow.dict_to_object(copy.deepcopy(before)), "copied": workflow.copy(),
              "deep copied": copy.deepcopy(workflow)}
    others["reloaded copy"] = Workflow.dict_to_object(dumped(others["copied"]))
    others["copied reload"] = others["reloaded"].copy(deep=True)
    inputs = built.inputs()
    try:
        results = wf.interpret(recipe)
    except IndexError:
        results = None
    for name, other in others.items():
        expect(workflow == other and other == workflow, f"the {name} workflow is not equal to the first")
        expect(hash(workflow) == hash(other), f"the {name} workflow has another hash")
        after = dumped(other)
        for field in before:
            expect(after[field] == before[field],
                   lambda: f"{field} of the {name} workflow: {first_difference(before[field], after[field])}")
        expect(set(after) == set(before), f"{name}: fields")
        ours = {id(x) for x in [*workflow.blocks, *workflow.pipes, *workflow.variables, *workflow.steps]}
        theirs = [*other.blocks, *other.pipes, *other.variables, *other.steps]
        expect(not any(id(x) in ours for x in theirs), f"the {name} workflow shares blocks, pipes or variables")
        if results is not None:
            found = other.run(dict(inputs)).output_value
            expect(wf.plain(found) == results[recipe["output"][0]][recipe["output"][1]], f"{name}: other output")
    copied = others["copied"]
    objects = {id(x) for v in workflow.variables for x in contained(v.default_value)}
    for name, other in others.items():
        if name != "reloaded copy":
            expect(not any(id(x) in objects for v in other.variables for x in contained(v.default_value)),
                   f"the {name} workflow shares objects given by default")
    for variable in copied.inputs:
        variable.label = "changed"
        variable.lock(0.)
    copied.steps.clear()
    copied.documentation = "changed"
    expect(dumped(workflow) == before, "changing the copy changed the first")
    if len(recipe["blocks"]) > 1:
        ctx.hit(*(f"kind {b[0]}" for b in recipe["blocks"]))
    if case[2]:
        ctx.label("steps")


def contained(value):
    """ Lists and objects in a value. """
    if isinstance(value, vparts.Part):
        return [value]
    if isinstance(value, list):
        return [value, *(x for v in value for x in contained(v))]
    return []


def first_difference(one, two, path=""):
    if isinstance(one, dict) and isinstance(two, dict):
        for key in {**one, **two}:
            if one.get(key) != two.get(key):
                return first_difference(one.get(key), two.get(key), f"{path}/{key}")
    if isinstance(one, list) and isinstance(two, list) and len(one) == len(two):
        for i, (a, b) in enumerate(zip(one, two)):
            if a != b:
                return first_difference(a, b, f"{path}/{i}")
    return f"at {path}: {one!r} and {two!r}"


# --- Different workflows ---------------------------------------------------------------------------------------------

def changes_of(recipe):
    """ Every local change which makes another workflow, as (what, changed recipe). """
    found = []

    def changed(what, i=None, block=None, **fields):
        new = dict(recipe, **fields)
        if block is not None:
            new["blocks"] = [*recipe["blocks"][:i], block, *recipe["blocks"][i + 1:]]
        found.append((what, new))

    for i, (kind, params, sources) in enumerate(recipe["blocks"]):
        if kind == "filter":
            (attribute, operator, bound), *rest = params[0]
            changed("bound of a filter", i, (kind, ([(attribute, operator, bound + 1), *rest], params[1]), sources))
            changed("operator of a filter", i,
                    (kind, ([(attribute, "gt" if operator != "gt" else "lt", bound), *rest], params[1]), sources))
            changed("attribute of a filter", i, (kind, ([("weight" if attribute == "size" else "size", operator,
                                                          bound), *rest], params[1]), sources))
            if len(params[0]) > 1:
                changed("logical operator", i, (kind, (params[0], "or" if params[1] != "or" else "and"), sources))
        elif kind == "get":
            changed("attribute", i, (kind, ("weight" if params[0] == "size" else "size", params[1]), sources))
        elif kind == "join":
            changed("separator", i, (kind, (params[0], params[1] + "+"), sources))
        elif kind == "unpack":
            changed("indices", i, (kind, [1 if k == 0 else 0 for k in params], sources))
        elif kind in ("markdown", "plot", "multiplot", "multiobject"):
            start, number, *told = params.split()
            changed("view", i, (kind, " ".join([start, str(int(number) + 1), *told]), sources))
            if kind in ("markdown", "plot"):
                changed("loading", i, (kind, f"view {number} {'off' if wf.is_loaded(kind, params) else 'on'}", sources))
        elif kind in ("export", "exportb"):
            changed("filename", i, (kind, params + "2", sources))
            changed("export method", i, ("export" if kind == "exportb" else "exportb", params, sources))
        elif kind == "scaled":
            changed("method", i, ("tracked", None, sources[:2]))
        elif kind == "sub":
            for what, inner in changes_of(params)[:3]:
                if set(wf.key_types(inner)) == set(wf.key_types(params)):
                    changed(f"inner {what}", i, (kind, inner, sources))
        if kind in ("make", "grown", "scaled", "tagged", "minus", "seq", "seqp", "cat", "sum", "product", "join"):
            for port, source in enumerate(sources):
                if source and source[0] == "wire":
                    type_ = wf.block_types(recipe["blocks"][i])[0][port]
                    for j, block in enumerate(recipe["blocks"][:i]):
                        for q, other in enumerate(wf.block_types(block)[1]):
                            if other == type_ and ("wire", j, q) != source:
                                moved = list(sources)
                                moved[port] = ("wire", j, q)
                                changed("pipe", i, (kind, params, moved))
    for i, block in enumerate(recipe["blocks"]):
        for port, type_ in enumerate(wf.block_types(block)[1]):
            if (i, port) != recipe["output"] and type_ not in ("display", "stream", "archive"):
                changed("output", output=(i, port))
    for key, (mode, value) in recipe["values"].items():
        if mode in ("default", "locked") and isinstance(value, float):
            changed("default value", values={**recipe["values"], key: (mode, value + 1)})
        if mode == "default":
            changed("lock", values={**recipe["values"], key: ("locked", value)})
    return [(what, new) for what, new in found if set(wf.key_types(new)) == set(recipe["values"])
            or what == "method" and set(wf.key_types(new)) <= set(recipe["values"])]


@st.composite
def different(draw, **kwargs):
    recipe = draw(wf.recipes(**kwargs))
    options = changes_of(recipe)
    if not options:
        return recipe, None, None
    kinds = sorted({what for what, _ in options})
    what = draw(st.sampled_from(kinds))
    return recipe, what, draw(st.sampled_from([new for w, new in options if w == what]))


@st.composite
def twins(draw):
    """ Two sub-workflows alike in one workflow. """
    inner, _, other = draw(different(max_blocks=3, depth=0))
    other = inner if other is None else other
    other = dict(other, values={k: v for k, v in other["values"].items() if k in wf.key_types(other)})
    blocks = [("sub", inner, {k: None for k in inner["values"]}), ("sub", other, {k: None for k in other["values"]})]
    values = {}
    for i, recipe in enumerate((inner, other)):
        for key, type_ in wf.key_types(recipe).items():
            mode = "signature" if recipe["values"][key][0] != "given" else "given"
            values[("b", i, key)] = (mode, draw(wf.values_of(type_)) if mode == "given" else None)
    recipe = {"blocks": blocks, "nbvs": [], "order": draw(st.permutations([0, 1])), "pipes": 0,
              "output": (draw(st.integers(0, 1)), 0), "values": values}
    return recipe, {}, [], "", ""


def judge_different(case, ctx):
    recipe, what, other = case
    if what is None:
        return
    other = dict(other, values={k: v for k, v in other["values"].items() if k in wf.key_types(other)})
    one, two = wf.Built(recipe).workflow, wf.Built(other).workflow
    expect(one != two and two != one, f"two workflows which differ by {what} are equal")
    same = wf.Built(recipe).workflow
    expect(one == same and hash(one) == hash(same), "the same workflow built twice is not equal")
    ctx.hit(f"other {what}")


def step_changes(steps):
    """ Every change of one step, as (what, changed steps). """
    found = []
    for i, (label, keys, doc, display) in enumerate(steps):
        changed = [("label", (label[:-1] + "x", keys, doc, display)),
                   ("documentation", (label, keys, doc[:-1] + "x" if doc else "x", display)),
                   ("display", (label, keys, doc, (0, 1, "Graph") if display is None else None))]
        if keys and (display is None or display[0] < len(keys)):
            changed.append(("inputs", (label, keys[:-1], doc, display)))
        if display is not None:
            number, index, selector = display
            changed.append(("selector", (label, keys, doc, (number, index, "Graph" if selector != "Graph" else "Swapped"))))
            changed.append(("variable", (label, keys, doc, (number, index + 1, selector))))
            if 0 < number <= len(keys):
                changed.append(("group", (label, keys, doc, (number - 1, index, selector))))
        found += [(what, [*steps[:i], step, *steps[i + 1:]]) for what, step in changed]
    if len(steps) > 1:
        found += [("order", steps[::-1])] * 2
    return found + [("number", steps[:-1]), ("number", [*steps, ("", [], "", None)])]


def judge_steps(case, ctx):
    """ Workflows are also their steps. """
    (recipe, labels, steps, *texts), pick, other = case
    if not steps:
        return
    changes = step_changes(steps)
    kinds = sorted({what for what, _ in changes})
    what = kinds[pick % len(kinds)]
    new = [c for w, c in changes if w == what]
    one, two = [assemble((recipe, labels, s, *texts)).workflow for s in (steps, new[other % len(new)])]
    expect(one != two and two != one, f"two workflows are equal, their steps have another {what}")
    same = assemble((recipe, labels, steps, *texts)).workflow
    expect(one == same and hash(one) == hash(same), "the same workflow built twice is not equal")
    ctx.hit(what)


def judge_model(case, ctx):
    """ The class that blocks are about is part of what they are. """
    import vparts
    from dessia_common.typings import AttributeType, MethodType
    from dessia_common.workflow import blocks as wb
    kind, first, second = case
    classes = {"Part": vparts.Part, "BigPart": vparts.BigPart, "Machine": vparts.Machine}

    def build(name):
        class_ = classes[name]
        if kind == "instantiate":
            block = wb.InstantiateModel(class_, name="b")
        elif kind == "get":
            block = wb.GetModelAttribute(AttributeType(class_, "size"), name="b")
        elif kind == "set":
            block = wb.SetModelAttribute(AttributeType(class_, "size"), name="b")
        else:
            block = wb.ModelMethod(MethodType(class_, "to_dict" if name == "Machine" else "scaled"), name="b")
        return Workflow([block], [], block.outputs[0], name="w")

    if kind == "method" and "Machine" in (first, second):
        return
    one, two = build(first), build(second)
    expect((one == two) is (first == second), f"{kind} {first} and {second}: equal? {one == two}")
    ctx.hit(kind)


RULE = "several blocks"
QUICK = 3
SUBS = [
    Sub("same", decorated(max_blocks=5), judge_same, quick=300, shards=2, rule=RULE),
    Sub("sinks", decorated(max_blocks=6, min_blocks=3, sinks=True, depth=0), judge_same, quick=200, rule=RULE),
    Sub("nested", decorated(max_blocks=3, depth=3), judge_same, quick=150, rule=RULE),
    Sub("other nested", different(max_blocks=3, depth=3), judge_different, quick=150, rule="there is a change to make"),
    Sub("twins", twins(), judge_same, quick=200, rule=RULE),
    Sub("different", different(max_blocks=5), judge_different, quick=600, shards=2, rule="there is a change to make"),
    Sub("other steps", st.tuples(decorated(max_blocks=3), st.integers(0, 60), st.integers(0, 9)), judge_steps, quick=300,
        rule="there are steps"),
    Sub("other sinks", different(max_blocks=6, sinks=True, depth=0, min_blocks=3), judge_different, quick=250,
        rule="there is a change to make"),
    Sub("model", st.tuples(st.sampled_from(["instantiate", "get", "set", "method"]),
                           st.sampled_from(["Part", "BigPart", "Machine"]),
                           st.sampled_from(["Part", "BigPart", "Machine"])), judge_model, quick=60, thorough=60,
        rule="every case"),
]
