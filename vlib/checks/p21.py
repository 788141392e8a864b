""" P21: the script of a workflow, or of a run, makes the same workflow or run when executed. """
import json
from typing import Optional

from hypothesis import strategies as st

import workflows as wf
from engine import Sub, expect
from dessia_common.files import StringFile
from checks import p09
from dessia_common.workflow.blocks import ForEach, Sequence
from dessia_common.workflow.core import Pipe, Variable, Workflow

DOCS = st.sampled_from(["", "doc", "# Title\n\nsome *text*", "it's \"quoted\"", "back\\slash \\n", 'end"', '"""', "é"])
NAMES = st.sampled_from(["wf", "My workflow", "it's", 'a "b"', "back\\slash", "é"])
LABELS = st.sampled_from(["", "Size", "it's", 'a "b"', "é\\"])


@st.composite
def titled(draw, **kwargs):
    recipe = draw(wf.recipes(builtins=True, **kwargs))
    names = {i: draw(NAMES) for i in range(len(recipe["blocks"])) if draw(st.booleans())}
    labels = {k: draw(LABELS) for k in recipe["values"] if k[0] == "nbv"}
    return recipe, draw(NAMES), draw(DOCS), names, labels, draw(DOCS)


def assemble(case):
    recipe, name, documentation, names, labels, inner_documentation = case
    built = wf.Built(recipe)
    for i, title in names.items():
        if built.inner[i] is None:
            built.parts[i].name = title
    for i, (sub, block) in enumerate(zip(built.inner, built.parts)):
        if sub is not None:
            sub.workflow.documentation = inner_documentation
        if isinstance(block, ForEach):
            inputs = block.workflow_block.inputs
            inputs[i % len(inputs)].label = f"{name} {i}"
    for key, label in labels.items():
        built.variable(key).label = label
    old = built.workflow
    built.workflow = Workflow(old.blocks, old.pipes, old.output, name=name, documentation=documentation)
    return built


def dumped(workflow):
    return json.loads(json.dumps(workflow.to_dict()))


def execute(script):
    scope = {}
    try:
        exec(compile(script, "<script>", "exec"), scope)
    except Exception as error:
        expect(False, f"the script raises {type(error).__name__}: {error}\n{script[:3000]}")
    return scope


def compare(first, second, script):
    expect(first == second and second == first, lambda: f"the workflow of the script is not equal to the first\n{script}")
    one, two = dumped(first), dumped(second)
    for field in ("name", "documentation", "pipes", "output", "blocks", "nonblock_variables"):
        expect(one[field] == two[field], lambda: f"{field}: {one[field]} became {two[field]}")


def judge_workflow(case, ctx):
    recipe = case[0]
    built = assemble(case)
    before = dumped(built.workflow)
    script = built.workflow.to_script()
    expect(dumped(built.workflow) == before, "writing the script changed the workflow")
    stream = StringFile("script.py")
    built.workflow.save_script_to_stream(stream)
    expect(stream.getvalue() == script, "the stream does not hold the script")
    other = execute(script)["workflow"]
    compare(built.workflow, other, script)
    try:
        results = wf.interpret(recipe)
    except IndexError:
        return
    run = other.run(built.inputs())
    expect(wf.plain(run.output_value) == results[recipe["output"][0]][recipe["output"][1]], "another output")
    if len(recipe["blocks"]) > 1:
        ctx.hit(*(f"kind {b[0]}" for b in recipe["blocks"]))


def judge_run(case, ctx):
    recipe = case[0]
    try:
        results = wf.interpret(recipe)
    except IndexError:
        return
    if any(isinstance(v, (tuple, list)) and "part" in repr(v) for _, v in recipe["values"].values()):
        return  # Objects are left to the user to write
    built = assemble(case)
    run = built.workflow.run(built.inputs())
    stream = StringFile("script.py")
    run.save_script_to_stream(stream)
    scope = execute(stream.getvalue())
    compare(built.workflow, scope["workflow"], stream.getvalue())
    other = scope["workflow_run"]
    expect(wf.plain(other.output_value) == results[recipe["output"][0]][recipe["output"][1]],
           lambda: f"the run of the script gives {other.output_value!r}\n{stream.getvalue()}")
    expect({i: wf.plain(v) for i, v in other.input_values.items()} ==
           {i: wf.plain(v) for i, v in run.input_values.items()}, "other input values")
    if len(recipe["blocks"]) > 1:
        ctx.hit("run with several blocks")


def judge_types(case, ctx):
    """ Variables are declared with their types, and what these need is imported. """
    recipes, names, optional = case
    block = Sequence(len(recipes))
    types = [p09.build(r) for r in recipes]
    variables = [Variable(Optional[t] if o else t, name=name) for t, name, o in zip(types, names, optional)]
    workflow = Workflow([block], [Pipe(v, i) for v, i in zip(variables, block.inputs)], block.outputs[0])
    script = workflow.to_script()
    other = execute(script)["workflow"]
    for variable, found, type_ in zip(variables, other.nonblock_variables, types):
        expect(found.name == variable.name, "names")
        expect(found.type_ in (type_, variable.type_), lambda: f"{variable.type_} became {found.type_}\n{script}")
    if any(p09.depth(r) for r in recipes):
        ctx.hit(*{r[0] for r in recipes})


RULE = "several blocks"
TYPES = st.lists(p09.ANNOTATIONS, min_size=1, max_size=3)
QUICK = 4
SUBS = [
    Sub("types", st.tuples(TYPES, st.lists(NAMES, min_size=3, max_size=3),
                           st.lists(st.booleans(), min_size=3, max_size=3)), judge_types, quick=500, rule="some type is nested"),
    Sub("workflow", titled(max_blocks=5), judge_workflow, quick=400, shards=2, rule=RULE),
    Sub("sinks", titled(max_blocks=6, min_blocks=3, sinks=True, depth=0), judge_workflow, quick=200, rule=RULE),
    Sub("nested", titled(max_blocks=4, depth=3), judge_workflow, quick=200, rule=RULE),
    Sub("run", titled(max_blocks=5, kinds=["make", "from_sum", "series", "scaled", "tracked", "tagged", "join", "sum", "minus", "seq"]),
        judge_run, quick=400, rule=RULE),
]
