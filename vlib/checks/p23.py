""" P23: the steps of the form of a workflow, whatever the history of editions. """
import copy
import inspect
import json
import random

from hypothesis import strategies as st

import vparts
import workflows as wf
from engine import Sub, expect
from dessia_common.schemas.core import UNDEFINED
from dessia_common.serialization import serialize
from dessia_common.workflow.core import Workflow

LABELS = st.sampled_from(["", "A", "B", "é b", "A"])
DOCS = st.sampled_from(["", "some doc", "other one", "# é"])
RAW = st.integers(0, 30)
OPERATIONS = st.one_of(
    st.tuples(st.just("insert"), LABELS, st.one_of(st.none(), st.integers(0, 4))),
    st.tuples(st.just("move"), st.lists(RAW, min_size=1, max_size=3), RAW),
    st.tuples(st.just("move"), st.lists(RAW, min_size=2, max_size=5), RAW),
    st.tuples(st.just("remove"), RAW),
    st.tuples(st.just("reset steps")),
    st.tuples(st.just("rename"), RAW, LABELS),
    st.tuples(st.just("reorder"), RAW),
    st.tuples(st.just("bad reorder"), st.lists(st.integers(-1, 3), max_size=4)),
    st.tuples(st.just("document"), RAW, DOCS),
    st.tuples(st.just("drop"), RAW),
    st.tuples(st.just("reorder inputs"), RAW, RAW),
    st.tuples(st.just("bad reorder inputs"), RAW, st.lists(RAW, max_size=4)),
    st.tuples(st.just("display"), RAW, RAW, st.integers(0, 9)),
    st.tuples(st.just("display"), RAW, RAW, st.integers(0, 8)),
    st.tuples(st.just("undisplay"), RAW),
    st.tuples(st.just("label"), RAW, LABELS),
    st.tuples(st.just("lock"), RAW, st.booleans()),
    st.tuples(st.just("default"), RAW),
    st.tuples(st.just("reset"), RAW),
    st.tuples(st.just("other workflow"), st.sampled_from(["reload", "copy"])),
    st.tuples(st.just("compute"), RAW, st.booleans()),
)


@st.composite
def histories(draw):
    recipe = draw(wf.recipes(min_blocks=2, max_blocks=5, kinds=["make", "grown", "from_sum", "scaled", "tagged", "minus",
                                                                 "seq", "total", "seqp"]))
    types = wf.key_types(recipe)
    others = {key: draw(wf.values_of(types[key])) for key in recipe["values"]}
    first = [("insert", draw(LABELS), None) for _ in range(draw(st.integers(1, 3)))]
    first += draw(st.lists(st.tuples(st.just("move"), st.lists(RAW, min_size=1, max_size=4), RAW), min_size=1, max_size=3))
    last = [("offers",)] if draw(st.integers(0, 4)) == 4 else []
    return recipe, others, first + draw(st.lists(OPERATIONS, min_size=5, max_size=16)) + last


class Model:
    """ What the form should be. """

    def __init__(self, case):
        self.recipe, self.others, _ = case
        built = wf.Built(self.recipe)
        self.workflow = built.workflow
        self.types = wf.key_types(self.recipe)
        self.keys = {built.index(k): k for k in self.recipe["values"]}
        self.steps = []
        inputs = self.workflow.inputs
        self.spare = set(range(len(inputs)))
        self.labels = [v.label for v in inputs]
        self.locked = [False] * len(inputs)
        self.defaults = [UNDEFINED] * len(inputs)
        for i, variable in enumerate(inputs):
            self.locked[i] = variable.locked
            self.defaults[i] = variable.default_value
        # Outputs: index among variables, upstream inputs
        self.outputs = []
        for i, block in enumerate(self.recipe["blocks"]):
            for port, variable in enumerate(built.parts[i].outputs):
                if inspect.isclass(variable.type_) and issubclass(variable.type_, vparts.Part):
                    blocks = wf.needed_blocks(self.recipe, i)
                    needed = set()
                    for j in blocks:
                        for p, _, source in wf.source_items(self.recipe["blocks"][j]):
                            if source is None:
                                needed.add(built.index(("b", j, p)))
                            elif source[0] == "nbv":
                                needed.add(built.index(source))
                    self.outputs.append((self.workflow.variables.index(variable), needed, (i, port)))
        self.built = built

    def open(self, indices):
        """ Those whose value has to be chosen. """
        return {i for i in indices if not self.locked[i]}

    def step_of(self, index):
        for step in self.steps:
            if index in step["inputs"]:
                return step
        return None

    def take(self, index):
        step = self.step_of(index)
        if step is None:
            self.spare.discard(index)
        else:
            step["inputs"].remove(index)

    def state(self):
        return [(s["label"], s["inputs"], s["doc"], s["display"], s["group"]) for s in self.steps], sorted(self.spare)


def observed(workflow):
    inputs = workflow.inputs
    position = {id(v): i for i, v in enumerate(inputs)}

    def index(variable):
        expect(id(variable) in position, "a step has an input which is not one of the workflow")
        return position[id(variable)]
    steps = []
    for step in workflow.steps:
        display = None
        if step.display_setting is not None:
            display = (step.display_variable_index, step.display_setting.selector)
        steps.append((step.label, [index(v) for v in step.inputs], step.documentation, display,
                      sorted(index(v) for v in step.group_inputs)))
    spare = [index(v) for v in workflow.spare_inputs]
    everywhere = [i for s in steps for i in s[1]] + spare
    expect(sorted(everywhere) == list(range(len(inputs))),
           lambda: f"inputs found in steps {[s[1] for s in steps]} and left {spare}, of {len(inputs)}")
    return steps, sorted(spare)


def compare(model, workflow, when):
    found = observed(workflow)
    expect(found == model.state(), lambda: f"{when}: form {found}, expected {model.state()}")
    for i, variable in enumerate(workflow.inputs):
        expect(variable.label == model.labels[i], f"{when}: label of input {i}")
        expect(variable.locked == model.locked[i], f"{when}: lock of input {i}")
        default = variable.default_value
        wanted = model.defaults[i]
        expect((default is UNDEFINED) == (wanted is UNDEFINED) and (wanted is UNDEFINED or default == wanted),
               f"{when}: default value of input {i}")


def pretty(name):
    words = name.split("_")
    return " ".join(w[0].upper() + w[1:] if len(w) > 1 else w for w in words)


def compare_property(model, found, when):
    """ One input, as the form shows it. """
    index = int(found["key"])
    variable = model.workflow.inputs[index]
    title = model.labels[index]
    if not title:
        title = pretty(variable.name)
        key = model.keys[index]
        if key[0] == "b":
            title = f"{model.built.parts[key[1]].name} - {title}"
    expect(found["title"] == title, lambda: f"{when}: input {index} is titled {found['title']!r}, not {title!r}")
    expect(found["editable"] is not model.locked[index],
           lambda: f"{when}: input {index} is {'locked' if model.locked[index] else 'free'}, editable: {found['editable']}")
    default = model.defaults[index]
    if model.types[model.keys[index]] in ("num", "text", "int"):
        expect(("defaultValue" in found) == (default is not UNDEFINED), f"{when}: default value of input {index}, or none")
        if default is not UNDEFINED:
            expect(found["defaultValue"] == default, lambda: f"{when}: {found['defaultValue']!r} shown for {default!r}")


def compare_schema(model, schema, when):
    schema = json.loads(json.dumps(schema))
    steps = schema["steps"]
    expect(len(steps) == len(model.steps), f"{when}: the form shows {len(steps)} steps")
    for step, expected in zip(steps, model.steps):
        expect(step["label"] == expected["label"] and step["documentation"] == expected["doc"],
               f"{when}: label or documentation of a step of the form")
        display = step["displaySetting"] and step["displaySetting"]["selector"]
        expect((step["displayVariable"], display) == (expected["display"] or (None, None)),
               f"{when}: display of a step of the form")
        shown, groups = [], []
        for content in step["properties"]:
            if content.get("formType") == "group":
                groups.append(sorted(int(p["key"]) for p in content["properties"]))
                for inner in content["properties"]:
                    compare_property(model, inner, when)
            else:
                compare_property(model, content, when)
                shown.append(int(content["key"]))
        group = [i for i in expected["inputs"] if i in expected["group"]]
        expect(shown == [i for i in expected["inputs"] if i not in expected["group"]],
               lambda: f"{when}: the form shows the inputs {shown}, expected {expected['inputs']}")
        expect(groups == ([sorted(group)] if group else []), lambda: f"{when}: groups {groups}, expected {group}")
    for content in schema["spareProperties"]:
        compare_property(model, content, when)
    left = sorted(int(p["key"]) for p in schema["spareProperties"])
    expect(left == sorted(model.spare), f"{when}: inputs out of the steps of the form")


def judge_form(case, ctx):
    model = Model(case)
    workflow = model.workflow
    number = len(workflow.inputs)
    if not number:
        return
    done = []

    def refused(call, *args, **kwargs):
        before = observed(workflow)
        try:
            call(*args, **kwargs)
        except (ValueError, IndexError, AttributeError, KeyError, TypeError, NotImplementedError):
            pass
        expect(observed(workflow) == before, lambda: f"{call.__name__}{args}{kwargs} changed the form")

    for operation in case[2]:
        kind, *args = operation
        steps = model.steps
        schema = None
        at = args[0] % len(steps) if steps and kind in ("remove", "rename", "document", "reorder inputs", "undisplay",
                                                        "bad reorder inputs", "compute") else None
        if at is None and kind in ("remove", "rename", "document", "reorder inputs", "undisplay", "bad reorder inputs",
                                   "compute"):
            if kind != "compute":
                refused(workflow.remove_step, 0)
            continue
        when = f"after {[*done, kind]}"
        if kind == "insert":
            label, position = args
            schema = workflow.insert_step(label, position)
            step = {"label": label, "inputs": [], "doc": "", "display": None, "group": []}
            steps.insert(len(steps) if position is None else position, step)
        elif kind == "move":
            indices = list(dict.fromkeys(a % number for a in args[0]))
            if not steps:
                refused(workflow.change_inputs_step, indices, 0)
                continue
            to = args[1] % (len(steps) + 1)
            if to == len(steps):
                refused(workflow.change_inputs_step, indices, to)
                continue
            schema = workflow.change_inputs_step(indices, to)
            for index in indices:
                if model.step_of(index) is not None:
                    ctx.label("input moved from a step to a step")
                model.take(index)
                steps[to]["inputs"].append(index)
        elif kind == "remove":
            schema = workflow.remove_step(at)
            if steps[at]["inputs"]:
                ctx.label("step with inputs removed")
            model.spare.update(steps[at]["inputs"])
            del steps[at]
        elif kind == "reset steps":
            schema = workflow.reset_steps()
            steps.clear()
            model.spare = set(range(number))
        elif kind == "rename":
            schema = workflow.rename_step(at, args[1])
            steps[at]["label"] = args[1]
        elif kind == "reorder":
            order = list(range(len(steps)))
            random.Random(args[0]).shuffle(order)
            schema = workflow.reorder_steps(order)
            model.steps = [steps[i] for i in order]
        elif kind == "bad reorder":
            if sorted(a % len(steps) if steps else a for a in args[0]) != list(range(len(steps))):
                refused(workflow.reorder_steps, args[0])
            continue
        elif kind == "document":
            schema = workflow.save_step_documentation(at, args[1])
            steps[at]["doc"] = args[1]
        elif kind == "drop":
            index = args[0] % number
            if index in model.spare:
                refused(workflow.remove_input_from_step, index)
                ctx.label("spare input removed")
                continue
            schema = workflow.remove_input_from_step(index)
            model.take(index)
            model.spare.add(index)
        elif kind == "reorder inputs":
            order = list(steps[at]["inputs"])
            random.Random(args[1]).shuffle(order)
            schema = workflow.reorder_step_inputs(at, order)
            steps[at]["inputs"] = order
        elif kind == "bad reorder inputs":
            order = [a % number for a in args[1]] if not steps[at]["inputs"] else \
                [steps[at]["inputs"][a % len(steps[at]["inputs"])] for a in args[1]]
            if sorted(order) != sorted(steps[at]["inputs"]):
                refused(workflow.reorder_step_inputs, at, order)
                ctx.label("order refused")
            continue
        elif kind == "display":
            if not model.outputs or not steps:
                continue
            variable, needed, _ = model.outputs[args[0] % len(model.outputs)]
            needed = model.open(needed)
            to = args[1] % len(steps)
            selectors = [s.selector for s in vparts.Part.display_settings()]
            if args[2] == 9:
                refused(workflow.add_step_display, variable_index=variable, step_index=to, selector="Not a display")
                ctx.label("unknown display refused")
                continue
            selector = selectors[args[2] % len(selectors)]
            before = {i for s in steps[:to] for i in s["inputs"]}
            here = set(steps[to]["inputs"])
            schema = workflow.add_step_display(variable_index=variable, step_index=to, selector=selector)
            moved = needed - before
            # The order of the needed inputs is free
            order = [workflow.inputs.index(v) for v in workflow.steps[to].inputs]
            kept = [i for i in steps[to]["inputs"] if i not in moved]
            expect([i for i in order if i not in moved] == kept and set(order) == here | moved,
                   lambda: f"{when}: display of variable {variable}: step inputs {order}, expected {kept} and {moved}")
            for index in moved:
                model.take(index)
            steps[to]["inputs"] = order
            steps[to]["display"] = (variable, selector)
            steps[to]["group"] = sorted(needed)
            ctx.label("step with a display")
            if before & needed:
                ctx.hit("display with inputs of earlier steps")
        elif kind == "undisplay":
            schema = workflow.remove_step_display(at)
            steps[at]["display"], steps[at]["group"] = None, []
        elif kind == "label":
            index = args[0] % number
            schema = workflow.rename_input(index, args[1])
            model.labels[index] = args[1]
        elif kind in ("lock", "default"):
            index = args[0] % number
            key = model.keys.get(index)
            if key is None or model.types[key] not in ("num", "text", "int"):
                continue
            value = model.others[key]
            if kind == "default":
                schema = workflow.set_input_default(index, value)
                model.defaults[index] = value
            elif args[1]:
                schema = workflow.lock_input(index, value)
                model.defaults[index], model.locked[index] = value, True
            elif model.defaults[index] is UNDEFINED:
                refused(workflow.lock_input, index)
                expect(not workflow.inputs[index].locked, f"{when}: locked without a value")
                continue
            else:
                schema = workflow.lock_input(index)
                model.locked[index] = True
        elif kind == "reset":
            index = args[0] % number
            if model.locked[index]:
                continue
            schema = workflow.reset_input_default(index)
            model.defaults[index] = UNDEFINED
        elif kind == "other workflow":
            before = json.loads(json.dumps(workflow.to_dict()))
            other = Workflow.dict_to_object(copy.deepcopy(before)) if args[0] == "reload" else workflow.copy()
            expect(other == workflow, f"{when}: not equal to the {args[0]}")
            compare(model, workflow, f"{when}, first one")
            after = json.loads(json.dumps(other.to_dict()))
            expect(before["steps"] == after["steps"], lambda: f"{when}: {before['steps']} became {after['steps']}")
            workflow = other
            schema = workflow.method_schemas["run"]
            if any(s["group"] for s in steps):
                ctx.hit(f"{args[0]} with displays")
        elif kind == "compute":
            check_display(model, workflow, at, args[1], when, ctx)
            continue
        elif kind == "offers":
            if steps:
                offered(model, workflow, when)
            continue
        done.append(kind)
        compare(model, workflow, when)
        if schema is not None:
            compare_schema(model, schema, when)
    if len([s for s in model.steps if s["inputs"]]) > 1:
        ctx.hit("several steps with inputs")


def offered(model, workflow, when):
    """ Displays offered to steps. """
    found = workflow.displayable_display_settings()["available_display_settings"]
    expect(len(found) == len(model.steps), f"{when}: displays offered to {len(found)} steps")
    for i, offers in enumerate(found):
        later = {index for step in model.steps[i + 1:] for index in step["inputs"]}
        expected = {variable for variable, needed, _ in model.outputs if not model.open(needed) & later}
        known = {variable for variable, _, _ in model.outputs}
        expect({v for v in offers if v in known} == expected,
               lambda: f"{when}: step {i} is offered the displays of {sorted(offers)}, expected {sorted(expected)}")


def check_display(model, workflow, at, changed, when, ctx):
    """ What the step displays. """
    step = model.steps[at]
    if step["display"] is None:
        expect(workflow.compute_step_display(at, {}) is None, f"{when}: displays something")
        return
    variable, selector = step["display"]
    (block, port), = [where for v, _, where in model.outputs if v == variable]
    given, used = {}, {}
    for index, key in model.keys.items():
        mode, value = model.recipe["values"][key]
        if model.defaults[index] is not UNDEFINED:
            value = wf.plain(model.defaults[index])
        elif mode == "signature":
            return
        if changed and not model.locked[index] and mode != "signature":
            value = model.others[key]
        used[key] = value
        if model.defaults[index] is UNDEFINED or changed and mode != "signature" and not model.locked[index]:
            given[str(index)] = serialize(wf.actual(value))
    recipe = dict(model.recipe, values={k: ("given", v) for k, v in used.items()})
    try:
        results = wf.interpret(recipe, only=wf.needed_blocks(recipe, block))
    except IndexError:
        return
    found = workflow.compute_step_display(at, json.loads(json.dumps(given)))
    part = wf.actual(results[block][port])
    expected = part._display_from_selector(selector).to_dict()
    for field in ("data", "type_"):
        one, two = json.dumps(found[field], sort_keys=True, default=str), json.dumps(expected[field], sort_keys=True, default=str)
        expect(one == two, lambda: f"{when}: {selector} displays {one[:300]}, expected {two[:300]}")
    ctx.hit("display computed")


# --- Equality --------------------------------------------------------------------------------------------------------

CHANGES = st.one_of(
    st.tuples(st.just("insert"), st.integers(0, 3), LABELS), st.tuples(st.just("remove"), RAW),
    st.tuples(st.just("rename"), RAW, LABELS), st.tuples(st.just("document"), RAW, DOCS),
    st.tuples(st.just("move"), RAW, RAW), st.tuples(st.just("drop"), RAW), st.tuples(st.just("reorder"), RAW),
    st.tuples(st.just("display"), RAW, RAW, RAW), st.just(("none",)))


@st.composite
def two_forms(draw):
    recipe = draw(wf.recipes(min_blocks=1, max_blocks=3, depth=0, kinds=["make", "grown", "scaled", "minus", "sum"]))
    number = draw(st.integers(0, 3))
    steps = draw(st.lists(st.tuples(LABELS, DOCS, st.lists(RAW, max_size=3)), min_size=number, max_size=3))
    return recipe, steps, draw(st.lists(CHANGES, min_size=1, max_size=3))


def change(workflow, kind, args):
    number = len(workflow.steps)
    if kind == "insert":
        workflow.insert_step(args[1], args[0])
    elif not number or kind == "none":
        return
    elif kind == "remove":
        workflow.remove_step(args[0] % number)
    elif kind == "rename":
        workflow.rename_step(args[0] % number, args[1])
    elif kind == "document":
        workflow.save_step_documentation(args[0] % number, args[1])
    elif kind == "move" and workflow.inputs:
        workflow.change_input_step(args[0] % len(workflow.inputs), args[1] % number)
    elif kind == "drop":
        variable = workflow.inputs[args[0] % len(workflow.inputs)] if workflow.inputs else None
        if variable is not None and workflow.find_input_step(variable) is not None:
            workflow.remove_input_from_step(args[0] % len(workflow.inputs))
    elif kind == "reorder":
        order = list(range(number))
        random.Random(args[0]).shuffle(order)
        workflow.reorder_steps(order)
    elif kind == "display":
        shown = [i for i, v in enumerate(workflow.variables) if v.type_ is vparts.Part and v not in workflow.inputs
                 and not isinstance(workflow.variable_indices(v), int) and workflow.variable_indices(v)[1]]
        if shown:
            workflow.add_step_display(shown[args[0] % len(shown)], args[1] % number, ["Sheet", "Brief", "Graph"][args[2] % 3])


def judge_equality(case, ctx):
    recipe, steps, changes = case

    def made():
        workflow = wf.Built(recipe).workflow
        for i, (label, doc, inputs) in enumerate(steps):
            workflow.insert_step(label)
            workflow.save_step_documentation(i, doc)
            for index in inputs:
                if workflow.inputs:
                    workflow.change_input_step(index % len(workflow.inputs), i)
        return workflow

    def changed(workflow):
        for kind, *args in changes:
            change(workflow, kind, args)
        return workflow

    first, same, other, again = made(), made(), changed(made()), changed(made())
    expect(first == same and hash(first) == hash(same), "the same form is not equal")
    expect(observed(other) == observed(again), lambda: f"the same editions gave {observed(other)} and {observed(again)}")
    expect(other == again and hash(other) == hash(again), "the same editions gave forms which are not equal")

    def shape(workflow):
        form = observed(workflow)[0]
        names = [(v.name, str(v.type_), v.default_value is UNDEFINED or wf.plain(v.default_value), v.locked) for v in workflow.inputs]
        return [(label, [repr(names[i]) for i in inputs], doc, display, sorted(repr(names[i]) for i in group))
                for label, inputs, doc, display, group in form]

    if shape(first) != shape(other):
        ctx.hit(*(f"changed by {c[0]}" for c in changes))
        expect(first != other and other != first,
               lambda: f"forms {observed(first)} and {observed(other)} are said equal")
    reloaded = Workflow.dict_to_object(json.loads(json.dumps(other.to_dict())))
    expect(reloaded == other and other.copy() == other, "the form is not equal to its reload and copy")


SUBS = [
    Sub("equality of forms", two_forms(), judge_equality, quick=1200, thorough=40000, shards=4,
        rule="the two forms differ by labels, documentations, displays or kinds of inputs"),
    Sub("form histories", histories(), judge_form, quick=900, thorough=20000, shards=8,
        rule="a step displays an output, a form with displays is copied or reloaded, or two steps have inputs"),
]
