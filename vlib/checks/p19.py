""" P19: locked inputs keep their value, the others have their default value unless another is given. """
import json

from hypothesis import strategies as st

import workflows as wf
from engine import Sub, expect
from dessia_common.schemas.core import UNDEFINED
from dessia_common.serialization import serialize
from dessia_common.workflow.core import Variable


@st.composite
def overridden(draw, **kwargs):
    recipe = draw(wf.recipes(modes=("default", "locked", "locked"), **kwargs))
    types = wf.key_types(recipe)
    given = {}
    for key, (mode, value) in recipe["values"].items():
        if mode == "given":
            given[key] = value
        elif mode in ("default", "locked") and draw(st.booleans()):
            given[key] = draw(wf.values_of(types[key]))
        elif mode == "signature" and types[key] in ("num", "text", "int") and draw(st.booleans()):
            given[key] = draw(wf.values_of(types[key]))
    # What is given to an input locked by an inner workflow is not used either
    return recipe, given


@st.composite
def named(draw, **kwargs):
    recipe, given = draw(overridden(**kwargs))
    return recipe, given, draw(st.sampled_from(["none", "none", "after", "not a text", "input", "input"]))


def effective(recipe, given):
    """ Values once inputs locked by inner workflows are left out. """
    return {key: value for key, value in given.items() if not (recipe["values"][key][0] == "signature" and wf.is_locked(recipe, key))}


def judge_run(case, ctx):
    recipe, given = case
    used = effective(recipe, given)
    try:
        results = wf.interpret(recipe, used)
    except IndexError:
        return
    expected = results[recipe["output"][0]][recipe["output"][1]]
    built = wf.Built(recipe)
    workflow = built.workflow
    inputs = built.inputs(given)
    run = workflow.run(inputs)
    expect(wf.plain(run.output_value) == expected, lambda: f"output {run.output_value!r}, expected {expected!r}")
    for key, (mode, value) in recipe["values"].items():
        index = built.index(key)
        if mode == "locked":
            expect(wf.plain(run.input_values[index]) == value, "the run does not tell the locked value")
            expect(wf.plain(workflow.inputs[index].default_value) == value, "running changed the locked value")
            if key in given and given[key] != value:
                ctx.hit("locked value protected")
        elif key in used:
            expect(wf.plain(run.input_values[index]) == used[key], "the run does not tell the given value")
            if mode in ("default", "signature"):
                ctx.hit("default value overridden")
        elif mode in ("default", "signature"):
            ctx.hit("default value used")
    if all(built.variable(key).type_ is not None for key in given):
        # Run again, from what a form sends
        values = {str(i): serialize(v) for i, v in inputs.items() if not workflow.inputs[i].locked}
        arguments = workflow.dict_to_arguments(json.loads(json.dumps(values)), "run")
        again = run.run_again(**{**arguments, "name": "second"})
        expect(wf.plain(again.output_value) == expected, lambda: f"run again: {again.output_value!r}, not {expected!r}")
        expect(again.name == "second", "name of the run")
        ctx.label("run again")
    locked = {built.index(k) for k in recipe["values"] if wf.is_locked(recipe, k)}
    found = {workflow.inputs.index(i) for i in workflow.locked_inputs}
    expect(locked == found, "locked inputs")
    defaults = {str(i): serialize(v.default_value) for i, v in enumerate(workflow.inputs)
                if v.default_value is not UNDEFINED}
    expect(workflow.method_dict("run") == defaults, "method_dict does not tell the default values")
    for key in recipe["values"]:
        expect((str(built.index(key)) in defaults) == wf.has_default(recipe, key), lambda: f"default of {key}")


def judge_arguments(case, ctx):
    recipe, given, naming = case
    built = wf.Built(recipe)
    if any(built.variable(key).type_ is None for key in given):
        return
    workflow = built.workflow
    sent = json.loads(json.dumps({str(built.index(k)): serialize(wf.actual(v)) for k, v in given.items()}))
    locked = {workflow.inputs.index(i) for i in workflow.locked_inputs}
    # The name of the result is told after the inputs, or is the value of the input with that purpose
    name = None
    texts = [k for k in given if wf.key_types(recipe)[k] == "text" and built.index(k) not in locked]
    if naming == "after":
        sent[str(len(workflow.inputs))] = name = "the result"
    elif naming == "not a text":
        sent[str(len(workflow.inputs))] = 12
    elif naming == "input" and texts:
        built.variable(texts[0]).name = "_result_name_"
        name = given[texts[0]]
    arguments = workflow.dict_to_arguments(sent, "run")
    expect(set(arguments) == {"input_values", "name"} and arguments["name"] == name,
           lambda: f"name {arguments.get('name')!r}, expected {name!r}")
    found = arguments["input_values"]
    try:
        workflow.dict_to_arguments(sent, "other")
    except NotImplementedError:
        pass
    else:
        expect(False, "arguments of a method which cannot be called")
    expected = {built.index(k): v for k, v in given.items() if built.index(k) not in locked}
    expect({i: wf.plain(v) for i, v in found.items()} == expected, lambda: f"{found} instead of {expected}")
    if len(expected) < len(given):
        ctx.hit("locked argument dropped")
    elif given:
        ctx.hit("arguments")


OPERATIONS = st.lists(st.one_of(
    st.tuples(st.just("lock"), st.sampled_from([None, "undefined", 1., 2.])),
    st.tuples(st.just("unlock"), st.booleans()),
    st.tuples(st.just("default"), st.sampled_from(["undefined", 3., None])),
    st.tuples(st.just("set locked"), st.booleans()),
    st.tuples(st.just("config"), st.tuples(st.sampled_from(["undefined", 4., None]), st.booleans())),
    st.tuples(st.sampled_from(["copy"]), st.booleans())), min_size=1, max_size=10)


def judge_variable(case, ctx):
    start, operations = case
    variable = Variable(float, name="v", label="l") if start is None else Variable(float, start, name="v", label="l")
    value, locked = (UNDEFINED if start is None else start), False
    for name, argument in operations:
        given = UNDEFINED if argument == "undefined" else argument
        if name == "lock":
            allowed = value is not UNDEFINED or given is not UNDEFINED
            try:
                variable.lock(given)
            except ValueError:
                expect(not allowed, "lock refused")
                ctx.hit("lock refused")
            else:
                expect(allowed, "locked without any value")
                value, locked = (value if given is UNDEFINED else given), True
        elif name == "unlock":
            variable.unlock(keep_default=argument)
            locked = False
            if not argument:
                value = UNDEFINED
        elif name == "default":
            if locked and given is UNDEFINED:
                continue
            variable.default_value = value = given
        elif name == "set locked":
            try:
                variable.locked = argument
            except AttributeError:
                pass
            else:
                expect(False, "the lock can be set without a value")
        elif name == "config":
            new, lock = argument
            new = UNDEFINED if new == "undefined" else new
            if lock and new is UNDEFINED:
                continue
            config = {"label": "other", "locked": lock}
            if new is not UNDEFINED:
                config["default_value"] = new
            variable.update_from_config(config)
            value, locked = new, lock
            expect(variable.label == "other", "label")
        else:
            copied = variable.copy(deep=argument)
            expect(copied is not variable and copied.label == variable.label and copied.name == "v", "copy")
            variable = copied
        expect(variable.locked is locked, lambda: f"{name}: locked {variable.locked}, expected {locked}")
        expect(variable.has_default_value is (value is not UNDEFINED), lambda: f"{name}: has default?")
        expect(variable.default_value is value or variable.default_value == value, lambda: f"{name}: default value")
        if locked:
            ctx.hit("locked")


QUICK = 4
SUBS = [
    Sub("runs", overridden(max_blocks=4), judge_run, quick=700, shards=2,
        rule="a default value is used or overridden, or a locked one protected"),
    Sub("arguments", named(kinds=wf.TYPED + ["minus", "get"]), judge_arguments, quick=300,
        rule="some arguments are sent"),
    Sub("variable", st.tuples(st.sampled_from([None, 0., 5.]), OPERATIONS), judge_variable, quick=600,
        rule="the variable is locked, or locking it is refused"),
]
