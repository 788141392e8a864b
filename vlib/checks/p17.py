""" P17: running a workflow computes what its blocks and pipes say. """
import json
from collections import Counter

from hypothesis import strategies as st

import vparts
import workflows as wf
from engine import Sub, expect
from dessia_common.serialization import serialize


def reference(recipe, given=None):
    """ (output or error, calls). """
    calls = []
    try:
        results = wf.interpret(recipe, given, calls)
    except IndexError:
        return IndexError, calls
    return results[recipe["output"][0]][recipe["output"][1]], calls


def same(found, expected):
    return wf.plain(found) == expected and type(wf.plain(found)) is type(expected)


def judge_run(recipe, ctx):
    expected, calls = reference(recipe)
    built = wf.Built(recipe)
    inputs = built.inputs()
    before = json.dumps(built.workflow.to_dict(), sort_keys=True, default=str)
    vparts.CALLS.clear()
    if expected is IndexError:
        try:
            built.workflow.run(inputs)
        except IndexError:
            ctx.label("error raised")
            return
        expect(False, "the error of a block was swallowed")
    progress = []
    run = built.workflow.run(inputs, progress_callback=progress.append, name="the run")
    traced = Counter(vparts.CALLS)
    expect(same(run.output_value, expected), lambda: f"output {run.output_value!r}, expected {expected!r}")
    expect(traced == Counter(calls), lambda: f"calls {traced}, expected {Counter(calls)}")
    expect(run.progress == 1 and run.name == "the run", "not complete")
    expect(progress and progress[-1] == 1, lambda: f"progress {progress}")
    steps = [p for p in progress if p <= 1]
    expect(all(0 <= p for p in progress), lambda: f"progress {progress}")
    expect(json.dumps(built.workflow.to_dict(), sort_keys=True, default=str) == before, "running changed the workflow")
    again = built.workflow.run(built.inputs())
    expect(same(again.output_value, expected), "second run differs")
    again = run.run_again(built.inputs())
    expect(same(again.output_value, expected), "a run that is run again differs")
    expect(same(run.output_value, expected), "running again changed the run")
    kinds = {b[0] for b in recipe["blocks"]}
    wired = sum(len(wf.wires_of(b)) for b in recipe["blocks"])
    if wired and len(steps):
        ctx.hit(*(f"kind {k}" for k in kinds))
    if len(wf.needed_blocks(recipe)) < len(recipe["blocks"]):
        ctx.label("blocks out of the main branch")
    if recipe["order"] != sorted(recipe["order"]):
        ctx.label("blocks out of order")


def judge_arguments(recipe, ctx):
    expected, _ = reference(recipe)
    if expected is IndexError:
        return
    built = wf.Built(recipe)
    if any(built.variable(key).type_ is None for key in wf.given_values(recipe)):
        return  # Values are only announced by JSON for typed inputs
    inputs = built.inputs()
    sent = json.loads(json.dumps({str(i): serialize(v) for i, v in inputs.items()}))
    arguments = built.workflow.dict_to_arguments(sent, "run")
    expect(set(arguments["input_values"]) == set(inputs), "arguments lost")
    name = "the name" if len(recipe["blocks"]) % 2 else ""
    if name:
        # The name of the run comes after its inputs
        number = len(built.workflow.inputs)
        named = built.workflow.dict_to_arguments({**sent, str(number): name}, "run")
        expect(named["name"] == name and set(named["input_values"]) == set(inputs), lambda: f"with a name: {named}")
        arguments["name"] = named["name"]
    run = built.workflow.run(**arguments)
    expect(run.name == name if name else run.name.startswith(built.workflow.name), lambda: f"named {run.name!r}")
    expect(same(run.output_value, expected), lambda: f"output {run.output_value!r}, expected {expected!r}")
    if inputs:
        ctx.hit("arguments through JSON")


@st.composite
def incomplete(draw):
    recipe = draw(wf.recipes(max_blocks=4))
    given = [k for k, (mode, _) in recipe["values"].items() if mode == "given" and not wf.has_default(recipe, k)]
    return recipe, draw(st.sampled_from(given)) if given else None


def judge_missing(case, ctx):
    recipe, missing = case
    if missing is None:
        return
    built = wf.Built(recipe)
    given = wf.given_values(recipe)
    del given[missing]
    inputs = built.inputs(given)
    vparts.CALLS.clear()
    try:
        built.workflow.run(inputs)
    except ValueError:
        expect(not vparts.CALLS, "blocks were evaluated although a value is missing")
        ctx.hit("missing value refused")
        return
    expect(False, lambda: f"ran without the value of {missing}")


RULE = "the workflow has at least one pipe between blocks"
QUICK = 5
SUBS = [
    Sub("run", wf.recipes(), judge_run, quick=700, shards=2, rule=RULE),
    Sub("small", wf.recipes(max_blocks=2), judge_run, quick=400, rule=RULE),
    Sub("nested", wf.recipes(max_blocks=4, depth=3), judge_run, quick=200, rule=RULE),
    Sub("loops", wf.recipes(max_blocks=3, loops=True), judge_run, quick=300, rule=RULE),
    Sub("large", wf.recipes(max_blocks=12, min_blocks=6), judge_run, quick=200, rule=RULE),
    Sub("arguments", wf.recipes(kinds=wf.TYPED + ["get", "minus"]), judge_arguments, quick=300, rule="some value goes through JSON"),
    Sub("missing", incomplete(), judge_missing, quick=250, rule="the value of an input is missing"),
]
