""" P18: whatever the order in which a run is fed, stepped, copied or reloaded, it ends the same. """
import copy
import json

from hypothesis import strategies as st

import vfiles
import vparts
import workflows as wf
from engine import Sub, expect
from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import AttributeType, ClassMethodType, MethodType
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Workflow, WorkflowRun, WorkflowState


OPERATIONS = st.one_of(
    st.tuples(st.just("input"), st.integers(0, 30)),
    st.tuples(st.just("input"), st.integers(0, 30)),
    st.tuples(st.just("block inputs"), st.integers(0, 30)),
    st.tuples(st.just("evaluate"), st.integers(0, 30)),
    st.tuples(st.just("evaluate"), st.integers(0, 30)),
    st.tuples(st.sampled_from(["next", "next", "continue", "copy", "copy", "reload", "finish"]), st.booleans()),
    st.tuples(st.just("switch"), st.integers(0, 5)))


# JSON makes lists of the tuples of products
KINDS = [k for k in wf.ORDINARY if k != "product"]


def cases(**kwargs):
    return st.tuples(wf.recipes(**{"kinds": KINDS, **kwargs}), st.integers(0, 3), st.lists(OPERATIONS, min_size=2, max_size=14))


class Model:
    """ Which inputs are known and which blocks are evaluated. """

    def __init__(self, recipe, known):
        self.recipe = recipe
        self.known = set(known)
        self.done = set()
        self.main = wf.needed_blocks(recipe)

    def ready(self, block):
        for port, _, source in wf.source_items(self.recipe["blocks"][block]):
            key = ("b", block, port) if source is None else source
            if source is not None and source[0] == "wire":
                if source[1] not in self.done:
                    return False
            elif key not in self.known and not wf.has_default(self.recipe, key):
                return False
        return True

    def allowed(self, block):
        return self.ready(block) and (block not in self.done or block not in self.main)

    def clone(self):
        other = Model(self.recipe, self.known)
        other.done = set(self.done)
        return other

    @property
    def progress(self):
        return len(self.done & self.main) / len(self.main)


def snapshot(state):
    """ All that a state holds. """
    workflow, info = state.workflow, state.execution_info
    active = state.activated_items
    position = {b: i for i, b in enumerate(workflow.blocks)}
    return {"name": state.name, "log": state.log, "start": info.start_time,
            "memory": [[(position[b], m) for b, m in usage] for usage in
                       (info.before_block_memory_usage, info.after_block_memory_usage)],
            "inputs": {i: wf.plain(v) for i, v in state.input_values.items()},
            "values": {workflow.pipes.index(p): wf.plain(v) for p, v in state.values.items()},
            "output": wf.plain(state.output_value), "blocks": [active[b] for b in workflow.blocks],
            "pipes": [active[p] for p in workflow.pipes],
            "variables": [[active[v] for v in b.inputs + b.outputs] for b in workflow.blocks],
            "shared": [active[v] for v in workflow.nonblock_variables]}


def judge_written(state):
    """ What a state is written as tells what is done, for others to show. """
    written = json.loads(json.dumps(state.to_dict()))
    workflow, active = state.workflow, state.activated_items
    expect(written["evaluated_blocks_indices"] == [i for i, b in enumerate(workflow.blocks) if active[b]], "blocks written")
    expect(written["evaluated_pipes_indices"] == [i for i, p in enumerate(workflow.pipes) if active[p]], "pipes written")
    wanted = [i for i in (workflow.variable_indices(v) for v in workflow.variables if active[v])]
    expect(written["evaluated_variables_indices"] == json.loads(json.dumps(wanted)), "variables written")
    if state.output_value is not None:
        wanted = type_text(state.output_value)
        expect(written["output_value_type"] == wanted,
               lambda: f"{state.output_value!r} is of type {written['output_value_type']}, not {wanted}")


def type_text(value):
    """ Name of the type of a value. """
    if value is None or isinstance(value, (bool, int, float, str)):
        return {type(None): None}.get(type(value), type(value).__name__)
    if isinstance(value, (list, tuple)):
        return [type_text(v) for v in value]
    return f"{type(value).__module__}.{type(value).__name__}"


def judge(case, ctx):
    recipe, start, operations = case
    try:
        results = wf.interpret(recipe, only=range(len(recipe["blocks"])))
    except IndexError:
        return
    built = wf.Built(recipe)
    given = wf.given_values(recipe)
    keys = sorted(given, key=repr)
    known = [k for i, k in enumerate(keys) if start == 0 or i % start == 0 or wf.has_default(recipe, k)]
    values = {k: wf.actual(given[k]) for k in keys}
    workflow = built.workflow
    state = workflow.start_run({built.index(k): values[k] for k in known})
    model = Model(recipe, known)
    output_block, output_port = recipe["output"]
    used = set()
    others = []
    for name, number in [*operations, ("everything", 0), ("continue", 0), ("finish", 0)]:
        block = number % len(recipe["blocks"])
        index = built.block_index(block)
        if name == "input" and keys:
            key = keys[number % len(keys)]
            if key not in model.known:
                state.add_input_value(built.index(key), values[key])
                model.known.add(key)
        elif name == "everything":
            for key in keys:
                if key not in model.known:
                    state.add_input_value(built.index(key), values[key])
                    model.known.add(key)
        elif name == "block inputs":
            free = [("b", block, port) if source is None else source
                    for port, _, source in wf.source_items(recipe["blocks"][block])
                    if source is None or source[0] == "nbv"]
            missing = [k for k in free if k not in model.known and not wf.has_default(recipe, k)]
            if missing:
                trial = state.copy()
                some = {str(built.index(k)): values[k] for k in free if k in given and k != missing[0]}
                try:
                    trial.add_block_input_values(index, some)
                except ValueError:
                    pass
                else:
                    expect(False, lambda: f"block {block} is given all its inputs, without {missing[0]}")
            if all(k in given for k in free) and not set(free) <= model.known:
                state.add_block_input_values(index, {str(built.index(k)): values[k] for k in free
                                                     if k not in model.known})
                model.known.update(free)
        elif name == "evaluate":
            allowed = model.allowed(block)
            expect(state.block_evaluation(index) is allowed,
                   lambda: f"block {block}: evaluated? {not allowed}, expected {allowed}")
            if allowed:
                model.done.add(block)
        elif name == "next":
            candidates = {b for b in range(len(recipe["blocks"])) if model.allowed(b) and b not in model.done}
            found = state.evaluate_next_block()
            if found is None:
                expect(not candidates, lambda: f"nothing evaluated, {candidates} could be")
            else:
                position = recipe["order"][state.workflow.blocks.index(found)]
                expect(position in candidates, lambda: f"{position} evaluated, not one of {candidates}")
                model.done.add(position)
        elif name == "continue":
            expected = set()
            while True:
                more = {b for b in model.main - model.done if model.ready(b)}
                if not more:
                    break
                expected |= more
                model.done |= more
            found = [recipe["order"][state.workflow.blocks.index(b)] for b in state.continue_run()]
            expect(len(found) == len(set(found)) and set(found) == expected,
                   lambda: f"evaluated {found}, expected {expected}")
        elif name == "copy":
            copied = copy.deepcopy(state) if number else state.copy()
            expect(copied == state and state == copied, "the copy of the state is not equal to it")
            expect(hash(copied) == hash(state), "the copy of the state has another hash")
            expect(snapshot(copied) == snapshot(state), "the copy of the state holds something else")
            judge_written(state)
            others.append((state, model.clone()))
            state = copied
        elif name == "reload":
            usage = state.execution_info.after_block_memory_usage
            usage[:] = [(b, m + 1 + i) for i, (b, m) in enumerate(usage)]  # What blocks need is mostly nothing
            reloaded = WorkflowState.dict_to_object(json.loads(json.dumps(state.to_dict())))
            expect(reloaded == state and state == reloaded, "the reloaded state is not equal to it")
            expect(hash(reloaded) == hash(state), "the reloaded state has another hash")
            expect(snapshot(reloaded) == snapshot(state), "the reloaded state holds something else")
            others.append((state, model.clone()))
            state = reloaded
        elif name == "switch":
            others.append((state, model))
            if number < len(others):
                state, model = others.pop(number)
            else:
                start = [k for k in keys if wf.has_default(recipe, k)]
                state = state.workflow.start_run({built.index(k): values[k] for k in start})
                model = Model(recipe, start)
                expect(state.progress == 0, "a new state starts with blocks evaluated")
        elif name == "finish":
            try:
                run = state.to_workflow_run("run")
            except ValueError:
                expect(model.progress < 1, "complete, but refused to become a run")
            else:
                expect(model.progress == 1, "incomplete, but became a run")
                expect(wf.plain(run.output_value) == results[output_block][output_port], "wrong output of the run")
        used.add(name)
        for one, its_model in others[-2:]:
            if its_model.done != model.done or any(not wf.has_default(recipe, k) for k in its_model.known ^ model.known):
                expect(one != state and state != one,
                       lambda: f"{name}: states are equal with {its_model.known}, {its_model.done} and {model.known}, "
                               f"{model.done}")
            elif its_model.known == model.known:
                expect(one == state and state == one, f"{name}: states in the same position are not equal")
        for one, its_model in [*others, (state, model)]:
            expect(one.progress == its_model.progress,
                   lambda: f"{name}: progress {one.progress}, not {its_model.progress}")
            if output_block in its_model.done:
                expect(wf.plain(one.output_value) == results[output_block][output_port],
                       lambda: f"{name}: output {one.output_value!r}, not {results[output_block][output_port]!r}")
            else:
                expect(one.output_value is None, "output before its block")
    expect(model.progress == 1, "not complete at the end")
    if len(recipe["blocks"]) > 1 and len(operations) > 1:
        ctx.hit(*(f"operation {name}" for name in used))
    if model.main != set(range(len(recipe["blocks"]))):
        ctx.label("secondary blocks")


@st.composite
def alike(draw, **kwargs):
    """ A run, and the input which gets another value in another one. """
    recipe = draw(wf.recipes(kinds=KINDS, **kwargs))
    types = wf.key_types(recipe)
    given = sorted(wf.given_values(recipe), key=repr)
    if not given:
        return recipe, None, None, 0
    key = draw(st.sampled_from(given))
    return recipe, key, draw(wf.values_of(types[key])), draw(st.integers(0, 4))


def judge_alike(case, ctx):
    """ States of which some value differs are not equal. """
    recipe, key, value, steps = case
    if key is None or value == recipe["values"][key][1]:
        return
    other = {**recipe, "values": {**recipe["values"], key: ("given", value)}}
    states = []
    for made in (recipe, other):
        built = wf.Built(made)
        states.append(built.workflow.start_run(built.inputs()))
    same = states[0].workflow.start_run(wf.Built(recipe).inputs())
    for step in range(steps + 1):
        expect(states[0] != states[1] and states[1] != states[0],
               lambda: f"after {step} blocks, states with {recipe['values'][key][1]!r} and {value!r} as {key} are equal")
        expect(states[0] == same and same == states[0] and hash(states[0]) == hash(same),
               f"after {step} blocks, states with the same values are not equal")
        try:
            for state in (*states, same):
                state.evaluate_next_block()
        except (IndexError, TypeError):
            return
        if step:
            ctx.hit()


# --- Models changed in place -----------------------------------------------------------------------------------------

class Chain:
    """ One state of a chain of blocks that change the part made by the first one, and what it should be. """

    def __init__(self, steps, state, fed=None, done=0, part=None):
        self.steps = steps
        self.state = state
        self.fed = dict(fed or {})
        self.done = done
        self.part = dict(part or {})

    def clone(self, state):
        return Chain(self.steps, state, self.fed, self.done, self.part)

    def advance(self):
        """ Models the evaluation of the next block; tells whether it can be. """
        if self.done > len(self.steps) or self.done and self.done - 1 not in self.fed:
            return False
        if not self.done:
            self.part = {"size": 1., "weight": 1.5, "label": "p"}
        else:
            kind, value = self.steps[self.done - 1], self.fed[self.done - 1]
            if kind == "shift":
                self.part["size"] += value
            else:
                self.part[kind] = value
        self.done += 1
        return True

    def check(self, why):
        workflow = self.state.workflow
        if not self.done:
            return
        if self.done > len(self.steps):
            part = self.state.output_value
        else:
            part = self.state.values[[p for p in workflow.pipes if p.output_variable is
                                      workflow.blocks[self.done].inputs[0]][0]]
        found = {a: getattr(part, a) for a in ("size", "weight", "label")}
        expect(found == self.part, lambda: f"{why}: after {self.done} blocks of {self.steps}, the part is {found}, "
                                           f"not {self.part}")
        expect({k: self.state.input_values.get(k) for k in self.indices()} ==
               {i: self.fed.get(k) for k, i in enumerate(self.indices())}, f"{why}: input values are not those given")

    def indices(self):
        workflow = self.state.workflow
        return [workflow.input_index(b.inputs[1]) for b in workflow.blocks[1:]]


def judge_chain(case, ctx):
    steps, operations = case
    blocks = [wb.InstantiateModel(vparts.Part, name="make")]
    for step in steps:
        if step == "shift":
            blocks.append(wb.ModelMethod(MethodType(vparts.Part, "shift"), name="shift"))
        else:
            blocks.append(wb.SetModelAttribute(AttributeType(vparts.Part, step), name=step))
    outs = [b.outputs[1] if isinstance(b, wb.ModelMethod) else b.outputs[0] for b in blocks]
    pipes = [Pipe(out, block.inputs[0]) for out, block in zip(outs, blocks[1:])]
    workflow = Workflow(blocks, pipes, outs[-1])
    start = {workflow.input_index(blocks[0].inputs[0]): 1.}
    now = Chain(steps, workflow.start_run(start))
    others = []
    used = set()
    for name, number in operations:
        used.add(name)
        if name == "feed":
            step = number % len(steps)
            if now.done <= step + 1:
                value = f"v{number}" if steps[step] == "label" else float(number)
                now.state.add_input_value(now.indices()[step], value)
                now.fed[step] = value
        elif name == "evaluate":
            block = number % len(blocks)
            expected = block == now.done and now.advance()
            expect(now.state.block_evaluation(block) is expected, f"block {block} evaluated? {not expected}")
        elif name == "continue":
            while now.advance():
                pass
            now.state.continue_run()
        elif name == "copy":
            others.append(now)
            now = now.clone(copy.deepcopy(now.state) if number % 2 else now.state.copy())
        elif name == "reload":
            others.append(now)
            now = now.clone(WorkflowState.dict_to_object(json.loads(json.dumps(now.state.to_dict()))))
        elif name == "new":
            others.append(now)
            now = Chain(steps, workflow.start_run(start))
        elif name == "run":
            if now.done > len(steps):
                others.append(now)
                now = now.clone(now.state.to_workflow_run("run").copy())
        elif name == "switch":
            others.append(now)
            now = others.pop(number % len(others))
        for chain in [*others, now]:
            chain.check(name)
    if others and any(c.done > 1 for c in [*others, now]):
        ctx.hit(*used)


CHAIN_OPERATIONS = st.one_of(
    st.tuples(st.just("feed"), st.integers(0, 30)), st.tuples(st.just("feed"), st.integers(0, 30)),
    st.tuples(st.just("evaluate"), st.integers(0, 5)),
    st.tuples(st.sampled_from(["continue", "continue", "copy", "copy", "reload", "new", "run", "switch", "switch"]),
              st.integers(0, 5)))

RULE = "several blocks and several operations"
QUICK = 3
CONTENTS = st.text(alphabet="ab \n\u00e9", max_size=4)
READERS = st.lists(st.tuples(st.one_of(st.tuples(st.just("from_text"), CONTENTS),
                                       st.tuples(st.just("from_several"), st.lists(CONTENTS, max_size=3)),
                                       st.tuples(st.just("from_binary"), st.one_of(st.none(), CONTENTS))),
                             st.sampled_from([None, 0., 2.5])), min_size=1, max_size=3)
FILE_OPERATIONS = st.lists(st.sampled_from(["next", "next", "next", "copy", "reload", "reload"]), max_size=8)


def filed(kind, content):
    """ The file, or files, of a content. """
    if content is None:
        return None
    if kind == "from_several":
        return [filed("from_text", c) for c in content]
    file = StringFile("read.txt") if kind == "from_text" else BinaryFile("read.bin")
    file.write(content if kind == "from_text" else content.encode("utf-8"))
    return file


def judge_files(case, ctx):
    """ Files are not saved with a state: the rest is, and once they are given again it ends the same. """
    readers, again, operations = case
    blocks = [wb.ClassMethod(ClassMethodType(vfiles.Reading, kind), name=f"reader {i}") for i, ((kind, _), _) in enumerate(readers)]
    ends = list(blocks)
    pipes = []
    if again:  # A file goes through a pipe
        operations = [o for o in operations if o != "reload"]
        write = wb.ModelMethod(MethodType(vfiles.Reading, "write"), name="write")
        read = wb.ClassMethod(ClassMethodType(vfiles.Reading, "from_text"), name="read again")
        pipes = [Pipe(blocks[-1].outputs[0], write.inputs[0]), Pipe(write.outputs[0], read.inputs[0])]
        blocks = blocks + [write, read]
        ends[-1] = read
    sequence = wb.Sequence(len(ends), name="all")
    pipes += [Pipe(b.outputs[0], v) for b, v in zip(ends, sequence.inputs)]
    workflow = Workflow(blocks + [sequence], pipes, sequence.outputs[0], name="files")
    wanted, values, files = [], {}, {}
    for i, ((kind, content), factor) in enumerate(readers):
        place = workflow.input_index(blocks[i].inputs[0])
        if content is not None:
            values[place] = files[place] = filed(kind, content)
        if factor is not None:
            values[workflow.input_index(blocks[i].inputs[1])] = factor
        text = "nothing" if content is None else "+".join(content) if kind == "from_several" else content
        last = again and i == len(readers) - 1
        wanted.append((text, 1. if factor is None or last else factor))
    told = workflow.file_inputs
    expect([workflow.input_index(i) for i in told] == sorted(workflow.input_index(b.inputs[0]) for b in blocks[:len(readers)])
           and workflow.has_file_inputs, lambda: f"inputs told to be files: {[i.name for i in told]}")
    run = workflow.run(dict(values), name="run")

    def is_right(output, what):
        found = [(r.text, r.factor) for r in output]
        expect(found == wanted, lambda: f"{what} has {found}, not {wanted}")

    def dumped(state, class_):
        dict_ = json.loads(json.dumps(state.to_dict()))
        kept = sorted(int(k) for k in dict_["input_values"])
        expect(kept == sorted(set(state.input_values) - {workflow.input_index(i) for i in told}), lambda: f"inputs {kept} are saved")
        other = class_.dict_to_object(dict_)
        expect(other == state and state == other, "what is reloaded differs")
        expect(hash(other.workflow) == hash(state.workflow), "what is reloaded has another hash")
        return other

    is_right(run.output_value, "the run")
    is_right(dumped(run, WorkflowRun).output_value, "the run, reloaded,")
    is_right(run.copy().output_value, "the copy of the run")
    is_right(run.run_again(dict(values)).output_value, "the run made again")
    state = workflow.start_run(dict(values))
    for operation in operations:
        if operation == "next":
            state.evaluate_next_block()
        elif operation == "copy":
            other = state.copy()
            expect(other == state, "the copy differs")
            state = other
        else:
            state = dumped(state, WorkflowState)
            for place, file in files.items():
                state.add_input_value(place, file)
    state.continue_run()
    expect(state.progress == 1, lambda: f"progress {state.progress} at the end")
    is_right(state.output_value, "the state")
    is_right(state.to_workflow_run().output_value, "the run of the state")
    for place, file in files.items():
        content = next(c for i, ((_, c), _) in enumerate(readers) if workflow.input_index(blocks[i].inputs[0]) == place)
        found = [f.getvalue() for f in file] if isinstance(file, list) else file.getvalue()
        found = found.decode("utf-8") if isinstance(found, bytes) else found
        expect(found == content, lambda: f"the file given now holds {found!r}")
    if files:
        ctx.hit(*set(operations), *(["through a pipe"] if again else []))


SUBS = [
    Sub("files", st.tuples(READERS, st.booleans(), FILE_OPERATIONS), judge_files, quick=300, rule="some file is given"),
    Sub("optional", st.tuples(wf.recipes(kinds=["either", "either", "fallback", "seqo"], max_blocks=5, min_blocks=2, depth=0),
                              st.just(0), st.lists(OPERATIONS, max_size=3).map(lambda o: [("next", True)] * 2 + o + [
                                  ("continue", True), ("reload", True)])), judge, quick=400, rule=RULE),
    Sub("alike", alike(max_blocks=4), judge_alike, quick=400, rule="blocks are evaluated"),
    Sub("histories", cases(max_blocks=5, min_blocks=2), judge, quick=600, shards=2, rule=RULE),
    Sub("secondary", cases(max_blocks=7, depth=0, sinks=True, archives=False), judge, quick=350, rule=RULE),
    Sub("in place", st.tuples(st.lists(st.sampled_from(["shift", "size", "weight", "label"]), min_size=1, max_size=4),
                              st.lists(CHAIN_OPERATIONS, min_size=3, max_size=14)), judge_chain, quick=400, shards=2,
        rule="several states, blocks evaluated"),
    Sub("nested", cases(max_blocks=4, depth=2), judge, quick=150, rule=RULE),
    Sub("small", cases(max_blocks=2), judge, quick=250, rule=RULE),
]
