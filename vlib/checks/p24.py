""" P24: what a workflow tells of its own structure. """
import json

from hypothesis import strategies as st

import vmodels
import vparts
import workflows as wf
from engine import Sub, expect
from dessia_common.core import DessiaFilter, FiltersList
from dessia_common.typings import MethodType
from dessia_common.utils.types import typematch
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Workflow


def describe(built):
    """ Wires of the recipe as (upstream variable, downstream variable), upstream being a shared variable or an output. """
    recipe = built.recipe
    wires = []
    for i, block in enumerate(recipe["blocks"]):
        for port, _, source in wf.source_items(block):
            if source is None:
                continue
            upstream = built.nbvs[source[1]] if source[0] == "nbv" else built.parts[source[1]].outputs[source[2]]
            wires.append((upstream, built.variable(("b", i, port))))
    return wires


def same(found, expected, what):
    """ The same instances, each once, in any order. """
    ids, wanted = sorted(map(id, found)), sorted(map(id, expected))
    expect(ids == wanted, lambda: f"{what}: {[getattr(x, 'name', x) for x in found]}, expected "
                                  f"{[getattr(x, 'name', x) for x in expected]}")


def judge_addresses(case, ctx):
    recipe = case
    built = wf.Built(recipe)
    workflow = built.workflow
    shared = [built.nbvs[k] for k in sorted({k[1] for k in recipe["values"] if k[0] == "nbv"})]
    everything = [v for part in built.parts for v in [*part.inputs, *part.outputs]] + shared
    same(workflow.variables, everything, "variables")
    same(workflow.nonblock_variables, shared, "shared variables")
    inputs = [built.variable(k) for k in recipe["values"]]
    same(workflow.inputs, inputs, "inputs")
    seen = {}
    for variable in everything:
        address = workflow.variable_indices(variable)
        expect(workflow.variable_from_index(address) is variable, lambda: f"{address} is not the address of its variable")
        expect(address not in seen, lambda: f"two variables at {address}")
        expect(workflow.variables[workflow.variable_index(variable)] is variable, "index of a variable")
        expect(workflow.is_variable_nbv(variable) == any(variable is v for v in shared), "shared or not")
        seen[address] = variable
    for i, block in enumerate(workflow.blocks):
        for side, variables in enumerate((block.inputs, block.outputs)):
            for port, variable in enumerate(variables):
                expect(seen.get((i, side, port)) is variable, f"address {i, side, port}")
                expect(workflow.block_from_variable(variable) is block, "block of a variable")
    wires = describe(built)
    for pipe in workflow.pipes:
        up, down = workflow.pipe_variable_indices(pipe)
        expect(workflow.pipe_from_variable_indices(up, down) is pipe, "pipe of two addresses")
        expect(seen[up] is pipe.input_variable and seen[down] is pipe.output_variable, "addresses of a pipe")
    expect(sorted((id(p.input_variable), id(p.output_variable)) for p in workflow.pipes) ==
           sorted((id(a), id(b)) for a, b in wires), "pipes")
    upstream = {id(b): a for a, b in wires}
    for part in built.parts:
        indices = []
        for variable in part.inputs:
            source = upstream.get(id(variable))
            free = variable if source is None else source
            wanted = next((i for i, v in enumerate(workflow.inputs) if v is free), None)
            expect(workflow.input_index(variable) == wanted, lambda: f"input {variable.name}: index "
                                                                     f"{workflow.input_index(variable)}, not {wanted}")
            expect(workflow.upstream_variable(variable) is source, "upstream variable")
            expect(workflow.get_upstream_nbv(variable) is
                   (source if any(source is v for v in shared) else variable), "upstream shared variable")
            if wanted is not None:
                indices.append(wanted)
        found = workflow.block_inputs_global_indices(next(i for i, b in enumerate(workflow.blocks) if b is part))
        expect(found == indices, lambda: f"inputs of a block {found}, expected {indices}")
    # Addresses mean the same in copies and reloads
    for other in (workflow.copy(), Workflow.dict_to_object(json.loads(json.dumps(workflow.to_dict())))):
        for address, variable in seen.items():
            twin = other.variable_from_index(address)
            expect((twin.name, twin.type_) == (variable.name, variable.type_), f"another variable at {address}")
            expect(other.variable_indices(twin) == address, f"another address than {address}")
        expect([other.pipe_variable_indices(p) for p in other.pipes] ==
               [workflow.pipe_variable_indices(p) for p in workflow.pipes], "other pipes")
    if wires:
        ctx.hit("shared variables" if shared else "wires")


def judge_upstream(case, ctx):
    recipe = case
    built = wf.Built(recipe)
    workflow, parts = built.workflow, built.parts
    needed = wf.needed_blocks(recipe)
    same(workflow.runtime_blocks, [parts[i] for i in needed], "blocks the output needs")
    wires = describe(built)
    shared = {id(v) for v in built.nbvs}
    for i, block in enumerate(recipe["blocks"]):
        part = parts[i]
        direct = sorted({w[1] for w in wf.wires_of(block)})
        same(workflow.upstream_blocks(part), [parts[j] for j in direct], f"blocks before {part.name}")
        expect(workflow.has_upstream_block(part) == bool(direct), "has upstream blocks")
        branch = wf.needed_blocks(recipe, i)
        same(workflow.upstream_branch(part), [parts[j] for j in branch], f"branch of {part.name}")
        secondary = i not in needed
        expect(workflow.is_block_secondary(part) == secondary, f"{part.name} is on the main branch, or not")
        if secondary:
            # Up to the main branch
            same(workflow.secondary_branch_blocks(part), [parts[j] for j in branch if j not in needed],
                 f"secondary branch of {part.name}")
            ctx.label("secondary branch")
        # What is needed to reach the outputs
        free = {}
        for j in branch:
            for port, _, source in wf.source_items(recipe["blocks"][j]):
                if source is None or source[0] == "nbv":
                    key = ("b", j, port) if source is None else source
                    variable = built.variable(key)
                    if not variable.locked:
                        free[id(variable)] = variable
        for output in part.outputs:
            same(workflow.upstream_inputs(output), list(free.values()), f"inputs needed by {part.name}")
        categories = workflow.block_upstream_variables(part)
        wanted = {"available": [], "nonblock": [], "wired": [], "locked": []}
        for variable in part.inputs:
            source = next((a for a, b in wires if b is variable), None)
            end = variable if source is None else source
            if source is not None and id(source) not in shared:
                wanted["wired"].append(source)
            elif end.locked:
                wanted["locked"].append(end)
            else:
                wanted["available" if source is None else "nonblock"].append(end)
        expect(set(categories) == set(wanted), "categories of variables")
        for name, expected in wanted.items():
            expect([id(v) for v in categories[name]] == [id(v) for v in expected], f"{name} variables of {part.name}")
        # Pipes
        incoming = workflow.block_incoming_pipes(part)
        expect(len(incoming) == len(part.inputs), "incoming pipes")
        for pipe, variable in zip(incoming, part.inputs):
            source = next((a for a, b in wires if b is variable), None)
            expect((pipe is None) == (source is None), "an incoming pipe too much, or missing")
            expect(pipe is None or pipe.output_variable is variable and pipe.input_variable is source, "another pipe")
        outgoing = [(id(a), id(b)) for a, b in wires if any(a is o for o in part.outputs)]
        expect(sorted((id(p.input_variable), id(p.output_variable)) for p in workflow.block_outgoing_pipes(part)) ==
               sorted(outgoing), "outgoing pipes")
        for other in parts:
            between = [(a, b) for a, b in outgoing if any(b == id(v) for v in other.inputs)]
            expect(sorted((id(p.input_variable), id(p.output_variable))
                          for p in workflow.pipes_between_blocks(part, other)) == sorted(between), "pipes between blocks")
        if len(branch) > 2:
            ctx.hit("long branch")
    used = {source for j in needed for _, _, source in wf.source_items(recipe["blocks"][j]) if source}
    alone = [parts[i] for i in range(len(parts)) if i not in needed]
    alone += [built.nbvs[k[1]] for k in recipe["values"] if k[0] == "nbv" and k not in used]
    same(workflow.output_disconnected_elements(), alone, "elements the output does not need")


def judge_layout(case, ctx):
    recipe = case
    built = wf.Built(recipe)
    workflow = built.workflow
    nodes = workflow.nodes
    graphs = workflow.layout()
    listed = [i for graph in graphs for column in graph for i in column]
    expect(sorted(listed) == list(range(len(nodes))), lambda: f"the layout shows {sorted(listed)} of {len(nodes)} nodes")
    expect(all(column for graph in graphs for column in graph), "an empty column")
    place = {i: (g, c) for g, graph in enumerate(graphs) for c, column in enumerate(graph) for i in column}
    position = {id(n): i for i, n in enumerate(nodes)}
    group = {i: i for i in range(len(nodes))}

    def root(i):
        while group[i] != i:
            i = group[i]
        return i
    edges = []
    for i, block in enumerate(recipe["blocks"]):
        for _, _, source in wf.source_items(block):
            if source is not None:
                start = built.nbvs[source[1]] if source[0] == "nbv" else built.parts[source[1]]
                edges.append((position[id(start)], position[id(built.parts[i])]))
    for a, b in edges:
        group[root(a)] = root(b)
        expect(place[a][0] == place[b][0], lambda: f"connected nodes {a} and {b} in other graphs of {graphs}")
        expect(place[a][1] < place[b][1], lambda: f"node {a} is not on the left of {b}, which it feeds: {graphs}, {edges}")
    expect(len(graphs) == len({root(i) for i in group}), lambda: f"{len(graphs)} graphs: {graphs}")
    if len({c for _, c in place.values()}) > 2:
        ctx.hit("three columns")
    if len(edges) > len(set(edges)) or any(place[b][1] - place[a][1] > 1 for a, b in edges):
        ctx.label("double or long edges")


def judge_matches(case, ctx):
    recipe = case
    built = wf.Built(recipe)
    workflow = built.workflow
    owner = {}
    for i, part in enumerate(built.parts):
        for side, variables in enumerate((part.inputs, part.outputs)):
            for variable in variables:
                owner[id(variable)] = (i, side)
    found = workflow.match_variables()
    texts = workflow.match_variables(serialize_output=True)
    typed = [v for v in workflow.variables if v.type_ is not None]
    same(list(found), typed, "variables with matches")
    for variable in typed:
        expected = []
        for other in typed:
            if variable is other:
                continue
            one, two = owner.get(id(variable)), owner.get(id(other))
            if one is not None and two is not None and (one[0] == two[0] or one[1] == two[1]):
                continue
            if typematch(variable.type_, other.type_):
                expected.append(other)
            expect(workflow.variable_compatibility(variable, other), "variables that can be wired are not compatible")
        same(found[variable], expected, f"matches of {variable.name}")
        address = str(workflow.variable_indices(variable))
        expect(sorted(texts[address]) == sorted(str(workflow.variable_indices(v)) for v in expected), "addresses of matches")
        if expected:
            ctx.hit("matches")
    expect(workflow.is_valid(), "the workflow is told not valid")
    mix = workflow.package_mix()
    if mix:
        expect(abs(sum(mix.values()) - 1) < 1e-9 and all(v >= 0 for v in mix.values()), f"packages {mix}")


# --- Packages --------------------------------------------------------------------------------------------------------

PACKED = {"part": (vparts.Part, "vparts"), "big": (vparts.BigPart, "vparts"), "machine": (vparts.Machine, "vparts"),
          "filter": (DessiaFilter, "dessia_common"), "filters": (FiltersList, "dessia_common"),
          "leaf": (vmodels.Leaf, "vmodels"), "method": (None, "vparts"), "sum": (None, None), "seq": (None, None)}
TREES = st.recursive(st.lists(st.sampled_from(sorted(PACKED)), min_size=1, max_size=6),
                     lambda inner: st.lists(st.one_of(st.sampled_from(sorted(PACKED)), inner), min_size=1, max_size=5),
                     max_leaves=12)


def mixed(tree):
    """ Workflow of unrelated blocks, and its share of each package. """
    blocks, shares = [], {}
    for i, item in enumerate(tree):
        if isinstance(item, list):
            inner, parts = mixed(item)
            blocks.append(wb.WorkflowBlock(workflow=inner, name=f"block {i}"))
            for package, share in parts.items():
                shares[package] = shares.get(package, 0) + share
            continue
        class_, package = PACKED[item]
        if item == "method":
            blocks.append(wb.ModelMethod(method_type=MethodType(class_=vparts.Part, name="scaled"), name=f"block {i}"))
        elif item == "sum":
            blocks.append(wb.Sum(number_elements=2, name=f"block {i}"))
        elif item == "seq":
            blocks.append(wb.Sequence(number_arguments=2, name=f"block {i}"))
        else:
            blocks.append(wb.InstantiateModel(model_class=class_, name=f"block {i}"))
        if package is not None:
            shares[package] = shares.get(package, 0) + 1
    total = sum(shares.values())
    return Workflow(blocks, [], output=blocks[-1].outputs[0]), {k: v / total for k, v in shares.items()}


def judge_packages(case, ctx):
    workflow, expected = mixed(case)
    for what, found in (("", workflow.package_mix()), ("serialized ", workflow.to_dict()["package_mix"]),
                        ("copied ", workflow.copy().package_mix())):
        expect(set(found) == set(expected) and all(abs(found[k] - expected[k]) < 1e-9 for k in found),
               lambda: f"{what}packages {found}, expected {expected}")
    if len(expected) > 1:
        ctx.hit("several packages")
    if any(isinstance(i, list) for i in case) and len(expected) > 1:
        ctx.hit("nested workflow")


DENSE = wf.recipes(min_blocks=4, max_blocks=9, depth=0, kinds=["minus", "sum", "minus", "scaled", "make"])
RECIPES = wf.recipes(max_blocks=7)
FLAT = wf.recipes(min_blocks=2, max_blocks=8, depth=0)
CHAINS = wf.recipes(min_blocks=5, max_blocks=10, depth=0, kinds=["minus", "sum", "scaled", "get", "grown"], chain=True)
QUICK = 4
SUBS = [
    Sub("addresses", RECIPES, judge_addresses, quick=500, thorough=10000, shards=3, rule="there are pipes"),
    Sub("upstream", wf.recipes(max_blocks=8), judge_upstream, quick=500, thorough=10000, shards=3,
        rule="a block has at least two blocks before it"),
    Sub("dense upstream", DENSE, judge_upstream, quick=500, thorough=10000, shards=2,
        rule="a block has at least two blocks before it"),
    Sub("chains", CHAINS, judge_upstream, quick=300, thorough=6000, shards=2,
        rule="a block has at least two blocks before it"),
    Sub("packages", TREES, judge_packages, quick=150, thorough=3000, rule="several packages are used"),
    Sub("layout", st.one_of(FLAT, DENSE), judge_layout, quick=800, thorough=20000, shards=2,
        rule="the layout has three columns"),
    Sub("matches", wf.recipes(max_blocks=4), judge_matches, quick=300, thorough=5000, shards=2, rule="some variables match"),
]
