"""
Workflows: recipes of dataflows, how to build them with the library, and a reference interpreter of the same recipes.

A recipe is plain data:
 blocks: list of (kind, params, sources); a source is None (free), ("wire", block, port) or ("nbv", k);
         blocks only use earlier ones. The sources of "sub" and "foreach" are {inner key: source}.
 nbvs:   list of types of the variables shared by several inputs (only those used matter)
 names:  "own" name for each block and shared variable, the "same" for all, or none for the blocks ("none")
 order:  permutation of the blocks, pipes: seed of the order of pipes
 output: (block, port)
 values: {key: (mode, value)} for free inputs; key is ("b", block, port) or ("nbv", k)
         modes: "given" (at run), "default" (declared on the variable), "locked", "signature" (left to the declaration)
"""
import random
from typing import List

from hypothesis import strategies as st

import vparts
from dessia_common.core import DessiaFilter
from dessia_common.typings import AttributeType, ClassMethodType, MarkdownType, MethodType, PlotDataType
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Variable, Workflow

NUMBERS = st.sampled_from([0., 1., 2., 3.5, -1., -2.25, 10., 0.125, 7., 1000.])
WORDS = st.sampled_from(["", "a", "bc", "é", "x y", "it's", 'a"b', "1"])
TYPES = {"num": float, "text": str, "part": vparts.Part, "int": int, "nums": List[float], "parts": List[vparts.Part],
         "table": List[List[float]], "opt": float, "opts": List[float]}
MANY = {"num": "nums", "part": "parts", "nums": "table", "opt": "opts"}
OPERATORS = {"gt": lambda a, b: a > b, "lt": lambda a, b: a < b, "ge": lambda a, b: a >= b, "le": lambda a, b: a <= b,
             "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}

# kind: (input types, output types, number of inputs with a signature default at the end)
SIGNATURES = {
    "make": (["num", "num", "text", "text"], ["part"], 3),
    "scaled": (["part", "num", "num"], ["num", "part"], 1),
    "grown": (["part", "num"], ["part", "part"], 0),
    "tracked": (["part", "num"], ["num", "part"], 0),
    "tagged": (["part", "text", "int"], ["text", "part"], 1),
    "from_sum": (["num", "num"], ["part"], 1),
    "series": (["num", "num", "int"], ["nums"], 1),
    "total": (["parts"], ["num"], 0),
    "minus": (["num", "num"], ["num"], 0),
    "get": (["part"], ["num"], 0),
    "getlabel": (["part"], ["text"], 0),
    "filter": (["parts"], ["parts"], 0),
    "first": (["nums"], ["num"], 0),
    "flatten": (["table"], ["nums"], 0),
    "either": (["opt", "opt"], ["opt"], 2),
    "fallback": (["part", "opt"], ["num", "part"], 0),
}
SINKS = {"markdown": ["part"], "plot": ["part"], "multiplot": ["parts"], "multiobject": ["parts"], "export": ["part", "text"],
         "exportb": ["part", "text"]}


def block_types(block):
    """ Types of the inputs and outputs of a block (None for nested ones, whose inputs are keyed). """
    kind, params, _ = block
    if kind in SIGNATURES:
        return SIGNATURES[kind][:2]
    if kind in ("seq", "seqp", "seqt", "seqo"):
        type_ = {"seq": "num", "seqp": "part", "seqt": "nums", "seqo": "opt"}[kind]
        return [type_] * params, [MANY[type_]]
    if kind in ("cat", "catp"):
        type_ = "nums" if kind == "cat" else "parts"
        return [type_] * params, [type_]
    if kind == "sum":
        return ["num"] * params, ["num"]
    if kind == "join":
        return ["text"] * params[0], ["text"]
    if kind == "product":
        return ["nums"] * params, ["pairs"]
    if kind == "unpack":
        return ["nums"], ["num"] * len(params)
    if kind == "sub":
        return None, [output_type(params)]
    if kind == "foreach":
        inner = output_type(params[0])
        return None, [MANY.get(inner, "many")]
    if kind in SINKS:
        return SINKS[kind], ["stream" if kind.startswith("export") else "display"]
    if kind == "archive":
        return ["stream"] * params + ["text"], ["archive"]
    raise ValueError(kind)


def output_type(recipe):
    block, port = recipe["output"]
    return block_types(recipe["blocks"][block])[1][port]


def source_items(block):
    """ (port, type, source) of a block; the port is the inner key for nested ones. """
    kind, params, sources = block
    if kind in ("sub", "foreach"):
        inner = params if kind == "sub" else params[0]
        types = key_types(inner)
        for key, source in sources.items():
            type_ = types[key]
            if kind == "foreach" and key == params[1]:
                type_ = MANY[type_]
            yield key, type_, source
    else:
        yield from zip(range(len(sources)), block_types(block)[0], sources)


def key_types(recipe):
    """ Types of the inputs of a recipe by key. """
    types = {}
    for i, block in enumerate(recipe["blocks"]):
        for port, type_, source in source_items(block):
            if source is None:
                types[("b", i, port)] = type_
            elif source[0] == "nbv":
                types[source] = type_
    return types


# --- Generation ------------------------------------------------------------------------------------------------------

def values_of(type_):
    if type_ == "num":
        return NUMBERS
    if type_ == "text":
        return WORDS
    if type_ == "int":
        return st.integers(0, 3)
    if type_ == "part":
        return st.tuples(st.just("part"), NUMBERS, NUMBERS, WORDS)
    if type_ == "nums":
        return st.lists(NUMBERS, min_size=1, max_size=3) | st.tuples(NUMBERS, st.integers(2, 3)).map(lambda t: [t[0]] * t[1])
    if type_ == "opt":
        return st.none() | NUMBERS
    if type_ == "opts":
        return st.lists(values_of("opt"), max_size=3)
    if type_ == "parts":
        return st.lists(values_of("part"), max_size=3)
    if type_ == "table":
        return st.lists(values_of("nums"), min_size=1, max_size=2)
    raise ValueError(type_)


TYPED = ["make", "scaled", "grown", "tracked", "tagged", "from_sum", "series", "total", "join", "either", "fallback"]
TRACED = ["make", "scaled", "grown", "tracked", "tagged", "from_sum", "series", "either", "fallback"]
ORDINARY = sorted(SIGNATURES) + ["seq", "seqp", "seqt", "seqo", "cat", "catp", "sum", "join", "product", "unpack"]


@st.composite
def recipes(draw, max_blocks=6, depth=1, sinks=False, kinds=None, modes=("given", "default", "locked"), min_blocks=1,
            archives=True, twice=False, wide=False, chain=False, loops=False, builtins=False):
    """
    Well-typed dataflows.

    `twice` tends to feed a block several times by the same one, `wide` makes sequences of at least three elements,
    `chain` tends to feed a block with the previous one only, `loops` makes loops on methods that are traced,
    `builtins` only sets default and locked values made of builtins.
    """
    kinds = kinds or ORDINARY
    blocks, produced, nbvs, feeding = [], {}, [], []

    def source(type_, wired=False):
        options = []
        available = produced.get(type_, [])
        if chain and available and available[-1][0] == len(blocks) - 1 and draw(st.integers(0, 5)):
            return ("wire", *available[-1])
        shared = [("nbv", k) for k, t in enumerate(nbvs) if t == type_]
        if available:
            options += [("wire", *w) for w in available[-4:]] * 2
            options += [("wire", *w) for w in available if w[0] in feeding] * 8
        if not wired or not available:
            options += [None] * 2 + shared + ["new"]
        choice = draw(st.sampled_from(options))
        if choice == "new":
            nbvs.append(type_)
            return ("nbv", len(nbvs) - 1)
        if twice and choice is not None and choice[0] == "wire":
            feeding.append(choice[1])
        return choice

    for _ in range(draw(st.integers(min_blocks, max_blocks))):
        options = list(kinds)
        if depth:
            options += ["sub", "foreach"] * (10 if loops else 2)
        ending = []
        if sinks and "part" in produced:
            ending += ["markdown", "plot", "export", "exportb"]
        if sinks and "parts" in produced:
            ending += ["multiplot", "multiobject"] * 2
        if sinks and archives and "stream" in produced:
            ending += ["archive"] * 2
        if ending and draw(st.integers(0, 2)):
            options = ending
        kind = draw(st.sampled_from(options))
        params = None
        feeding.clear()
        if kind in ("seq", "seqp", "seqo", "cat", "catp", "sum"):
            params = draw(st.integers(3, 5) if wide else st.integers(1, 3))
        elif kind == "seqt":
            params = draw(st.integers(1, 2))
        elif kind == "product":
            params = draw(st.integers(1, 2))
        elif kind == "join":
            params = (draw(st.integers(1, 3)), draw(st.sampled_from(["", "-", ", ", "'"])))
        elif kind == "unpack":
            params = draw(st.sampled_from([[0], [-1], [0, -1], [0, 0]]))
        elif kind == "filter":
            params = (draw(st.lists(st.tuples(st.sampled_from(["size", "weight"]), st.sampled_from(sorted(OPERATORS)),
                                              NUMBERS), min_size=1, max_size=2)),
                      draw(st.sampled_from(["and", "or", "xor"])))
        elif kind == "get":
            params = (draw(st.sampled_from(["size", "weight"])), draw(st.booleans()))
        elif kind in ("markdown", "plot", "multiplot", "multiobject"):
            params = f"view {len(blocks)}" + draw(st.sampled_from(["", " on", " off"]))
        elif kind in ("export", "exportb"):
            params = draw(st.sampled_from(["file{}", "file{}", "My file {}", "it's{}", "FILE_{}.v1"])).format(len(blocks))
        elif kind == "archive":
            params = draw(st.integers(1, 2))
        if kind in ("sub", "foreach"):
            inner = draw(recipes(max_blocks=3, depth=depth - 1, kinds=TRACED if loops else kinds, modes=modes, builtins=builtins))
            types = key_types(inner)
            open_keys = [k for k in types if k not in inner["values"] or not is_locked(inner, k)]
            iterable = [k for k in open_keys if types[k] in MANY]
            if kind == "foreach" and not iterable:
                kind = "sub"
            keyed = {k: (source(types[k]) if k in open_keys else None) for k in types}
            params = inner
            if kind == "foreach":
                key = draw(st.sampled_from(iterable))
                keyed[key] = source(MANY[types[key]])
                params = (inner, key)
            blocks.append((kind, params, keyed))
        else:
            needed = block_types((kind, params, ()))[0]
            wired = kind in SINKS or kind == "archive"
            blocks.append((kind, params, [None if wired and t == "text" else source(t, wired) for t in needed]))
        for port, type_ in enumerate(block_types(blocks[-1])[1]):
            produced.setdefault(type_, []).append((len(blocks) - 1, port))
    outputs = [(i, port) for i, block in enumerate(blocks) for port, type_ in enumerate(block_types(block)[1])
               if type_ not in ("display", "stream", "archive")]
    last = outputs[-3:]
    recipe = {"blocks": blocks, "nbvs": nbvs, "order": draw(st.permutations(range(len(blocks)))),
              "pipes": draw(st.integers(0, 5)), "output": draw(st.sampled_from(last + outputs)), "values": {},
              "names": draw(st.sampled_from(["own"] * 3 + ["same", "none"]))}
    for key, type_ in key_types(recipe).items():
        allowed = ["given"] * 3 + list(modes)
        if key[0] == "b":
            kind, params, sources = blocks[key[1]]
            if kind in SIGNATURES and key[2] >= len(sources) - SIGNATURES[kind][2] or kind == "join" or \
                    kind in ("export", "exportb", "archive") and type_ == "text":
                allowed += ["signature"] * 2
            if kind in ("sub", "foreach"):
                inner = params if kind == "sub" else params[0]
                inner_mode = inner["values"][key[2]][0]
                iterated = kind == "foreach" and key[2] == params[1]
                if not iterated and is_locked(inner, key[2]):
                    allowed = ["signature", "signature", "given"]
                elif inner_mode in ("default", "signature") and not iterated:
                    allowed += ["signature"] * 2
        mode = draw(st.sampled_from(allowed))
        if builtins and mode in ("default", "locked") and type_ in ("part", "parts"):
            mode = "given"
        recipe["values"][key] = (mode, None if mode == "signature" else draw(values_of(type_)))
    return recipe


# --- Reference -------------------------------------------------------------------------------------------------------

def plain(value):
    """ Part recipes are already plain; actual parts are made so. """
    if isinstance(value, (vparts.Part, vparts.Machine)):
        return ("part", value.size, value.weight, value.label)
    if isinstance(value, list):
        return [plain(v) for v in value]
    if isinstance(value, tuple) and not (value and isinstance(value[0], str)):
        return tuple(plain(v) for v in value)
    return value


SIGNATURE_DEFAULTS = {("make", 1): 1.5, ("make", 2): "p", ("make", 3): "", ("scaled", 2): 0.5, ("tagged", 2): 2,
                      ("from_sum", 1): 2., ("series", 2): 3, ("either", 0): 4., ("either", 1): None}


class Missing(Exception):
    """ The value of an input is not known. """


def input_value(recipe, key, given):
    """ Value an input takes. """
    mode, value = recipe["values"][key]
    if mode == "locked":
        return value
    if key in given:
        return given[key]
    if mode == "default":
        return value
    if mode == "signature":
        if key[0] == "nbv":
            raise Missing(key)
        _, block, port = key
        kind, params, _ = recipe["blocks"][block]
        if kind == "join":
            return ""
        if kind in ("export", "exportb"):
            return params
        if kind == "archive":
            return "archive"
        if kind == "foreach" and port == params[1]:
            raise Missing(key)
        if kind in ("sub", "foreach"):
            inner = params if kind == "sub" else params[0]
            if inner["values"][port][0] == "given" and has_default(inner, port):
                inner = {**inner, "values": {**inner["values"], port: ("signature", None)}}
            return input_value(inner, port, {})
        if (kind, port) in SIGNATURE_DEFAULTS:
            return SIGNATURE_DEFAULTS[(kind, port)]
    raise Missing(key)


def has_default(recipe, key):
    """ Whether the input has a value when none is given. """
    mode = recipe["values"][key][0]
    if mode == "given":
        recipe = {**recipe, "values": {**recipe["values"], key: ("signature", None)}}
    try:
        input_value(recipe, key, {})
    except (Missing, KeyError):
        return False
    return True


def is_locked(recipe, key):
    """ Whether the input is locked, here or in the workflow its block holds. """
    mode = recipe["values"][key][0]
    if mode == "signature" and key[0] == "b":
        kind, params, _ = recipe["blocks"][key[1]]
        if kind == "sub":
            return is_locked(params, key[2])
        if kind == "foreach":
            return key[2] != params[1] and is_locked(params[0], key[2])
    return mode == "locked"


def given_values(recipe):
    return {k: v for k, (mode, v) in recipe["values"].items() if mode == "given"}


def wires_of(block):
    return [source for _, _, source in source_items(block) if source and source[0] == "wire"]


def needed_blocks(recipe, target=None):
    """ Blocks upstream of the output (or of a block), itself included. """
    todo = [recipe["output"][0] if target is None else target]
    seen = set()
    while todo:
        index = todo.pop()
        if index not in seen:
            seen.add(index)
            todo.extend(w[1] for w in wires_of(recipe["blocks"][index]))
    return seen


def interpret(recipe, given=None, calls=None, only=None):
    """ Values of the outputs of the needed blocks: {block: [values]}. """
    given = given_values(recipe) if given is None else given
    calls = [] if calls is None else calls
    results = {}
    for i in sorted(needed_blocks(recipe) if only is None else only):
        kind, params, _ = recipe["blocks"][i]
        args = {}
        for port, _, source in source_items(recipe["blocks"][i]):
            if source is None:
                args[port] = input_value(recipe, ("b", i, port), given)
            elif source[0] == "nbv":
                args[port] = input_value(recipe, source, given)
            else:
                args[port] = results[source[1]][source[2]]
        results[i] = evaluate(kind, params, args, calls)
    return results


def evaluate(kind, params, args, calls):
    """ What each block computes. """
    if kind == "sub":
        inner = interpret(params, args, calls)
        return [inner[params["output"][0]][params["output"][1]]]
    if kind == "foreach":
        recipe, key = params
        found = []
        for item in args[key]:
            inner = interpret(recipe, {**args, key: item}, calls)
            found.append(inner[recipe["output"][0]][recipe["output"][1]])
        return [found]
    args = [args[i] for i in range(len(args))]
    if kind == "make":
        calls.append("Part")
        return [("part", args[0], args[1], args[2])]
    if kind in ("scaled", "grown", "tracked", "tagged", "from_sum", "series", "total", "either", "fallback"):
        calls.append(kind)
    if kind == "scaled":
        return [args[0][1] * args[1] + args[2], args[0]]
    if kind == "grown":
        calls.append("Part")
        return [("part", args[0][1] + args[1], args[0][2], args[0][3]), args[0]]
    if kind == "tracked":
        return [args[0][2] * args[1], args[0]]
    if kind == "tagged":
        return [args[0][3] + args[1] * args[2], args[0]]
    if kind == "from_sum":
        calls.append("Part")
        return [("part", args[0] + args[1], 1.5, "p")]
    if kind == "series":
        return [[args[0] + i * args[1] for i in range(args[2])]]
    if kind == "either":
        return [args[0] if args[1] is None else args[1]]
    if kind == "fallback":
        return [args[0][1] if args[1] is None else args[1], args[0]]
    if kind == "total":
        return [sum(p[1] for p in args[0])]
    if kind == "minus":
        return [args[0] - args[1]]
    if kind == "get":
        return [args[0][1 if params[0] == "size" else 2]]
    if kind == "getlabel":
        return [args[0][3]]
    if kind == "filter":
        filters, operator = params
        kept = []
        for part in args[0]:
            hits = [OPERATORS[o](part[1 if a == "size" else 2], b) for a, o, b in filters]
            if {"and": all(hits), "or": any(hits), "xor": sum(hits) == 1}[operator]:
                kept.append(part)
        return [kept]
    if kind == "first":
        return [args[0][0]]
    if kind == "flatten":
        return [[v for row in args[0] for v in row]]
    if kind in ("seq", "seqp", "seqt", "seqo"):
        return [args]
    if kind in ("cat", "catp"):
        return [[v for a in args for v in a]]
    if kind == "sum":
        total = 0
        for value in args:
            total = total + value
        return [total]
    if kind == "join":
        return [params[1].join(args)]
    if kind == "product":
        if params == 1:
            return [[(a,) for a in args[0]]]
        return [[(a, b) for a in args[0] for b in args[1]]]
    if kind == "unpack":
        return [args[0][i] for i in params]
    if kind == "markdown":
        _, size, weight, label = args[0]
        return [{"Sheet": f"# {label} {size} {weight}", "Brief": f"*{label}* {size}",
                 "Card": f"{weight} {label} at "}[view_name(kind, params)]]
    if kind == "export":
        return [(f"{args[1]}.{extension(kind, params)}", f"{args[0][3]};{args[0][1]};{args[0][2]}")]
    if kind == "exportb":
        return [(f"{args[1]}.{extension(kind, params)}", f"{args[0][1]}|{args[0][2]}".encode())]
    if kind == "archive":
        return [(f"{args[-1]}.zip", args[:-1])]
    if kind == "plot":
        _, size, weight, label = args[0]
        return [(label, *((size, weight) if view_name(kind, params) == "Graph" else (weight, size)))]
    return [[(part[1], part[2]) for part in args[0]]]


def extension(kind, params):
    """ Extension of the files of an export block: it tells nothing of what is in them. """
    if kind == "export":
        return "csv" if params.startswith("My") else "txt"
    return "txt" if params.startswith("it's") else "bin"


def view_name(kind, params):
    """ Selector of a display block. """
    number = int(params.split()[1])
    return ["Sheet", "Brief", "Card"][number % 3] if kind == "markdown" else ["Graph", "Swapped"][number % 2]


def loading(params):
    """ Whether a display is loaded at once, when told. """
    told = params.split()[2:]
    return {"load_by_default": told[0] == "on"} if told else {}


def is_loaded(kind, params):
    """ Whether a display is loaded at once. """
    return loading(params).get("load_by_default", kind in ("multiplot", "multiobject"))


# --- Construction ----------------------------------------------------------------------------------------------------

def actual(value):
    """ Plain value -> what the library is given. """
    if isinstance(value, tuple) and value and value[0] == "part":
        return vparts.Part(value[1], value[2], value[3])
    if isinstance(value, list):
        return [actual(v) for v in value]
    return value


def make_block(kind, params, index, names="own"):
    method = {"scaled", "grown", "tracked", "tagged", "fallback"}
    static = {"from_sum", "series", "total", "either"}
    title = {"own": f"{kind} {index}", "same": "block", "none": ""}[names]
    common = {"name": title, "position": (float(index), 2. * index)}
    if kind == "make":
        return wb.InstantiateModel(vparts.Part, **common)
    if kind in method:
        return wb.ModelMethod(MethodType(vparts.Part, kind), **common)
    if kind in static:
        return wb.ClassMethod(ClassMethodType(vparts.Part, kind), **common)
    if kind == "minus":
        return wb.Substraction(**common)
    if kind == "get" and params[1]:
        return wb.GetModelAttribute(AttributeType(vparts.Part, params[0]), **common)
    if kind == "get":
        return wb.ModelAttribute(params[0], **common)
    if kind == "getlabel":
        return wb.ModelAttribute("label", **common)
    if kind == "filter":
        return wb.Filter([DessiaFilter(a, o, b) for a, o, b in params[0]], params[1], **common)
    if kind == "first":
        return wb.Unpacker([0], **common)
    if kind == "unpack":
        return wb.Unpacker(list(params), **common)
    if kind == "flatten":
        return wb.Flatten(**common)
    if kind in ("seq", "seqp", "seqt", "seqo"):
        return wb.Sequence(params, **common)
    if kind in ("cat", "catp"):
        return wb.Concatenate(params, **common)
    if kind == "sum":
        return wb.Sum(params, **common)
    if kind == "join":
        return wb.ConcatenateStrings(params[0], params[1], **common)
    if kind == "product":
        return wb.Product(params, **common)
    if kind == "markdown":
        return wb.Markdown(MarkdownType(vparts.Part, view_name(kind, params)), **loading(params), **common)
    if kind == "plot":
        return wb.PlotData(PlotDataType(vparts.Part, view_name(kind, params)), **loading(params), **common)
    if kind == "multiplot":
        return wb.MultiPlot(params, ["size", "weight"], **loading(params), **common)
    if kind == "multiobject":
        views = [wb.ScatterView(("weight", "size"), name="scatter"), wb.ParallelView(["size", "weight", "label"])]
        return wb.MultiObject(params, views[:1 + int(params.split()[1]) % 2], **loading(params), **common)
    if kind == "export":
        return wb.Export(MethodType(vparts.Part, "save_text"), True, extension(kind, params), filename=params, **common)
    if kind == "exportb":
        return wb.Export(MethodType(vparts.Part, "save_binary"), False, extension(kind, params), filename=params, **common)
    if kind == "archive":
        return wb.Archive(params, **common)
    raise ValueError(kind)


class Built:
    """ A workflow and the mapping from the keys and blocks of its recipe. """

    def __init__(self, recipe, name="wf", **kwargs):
        self.recipe = recipe
        names = recipe.get("names", "own")
        blocks, inner = [], []
        for i, (kind, params, sources) in enumerate(recipe["blocks"]):
            if kind in ("sub", "foreach"):
                sub = Built(params if kind == "sub" else params[0], name="inner")
                block = wb.WorkflowBlock(sub.workflow, name=f"sub {i}", position=(i, i))
                if kind == "foreach":
                    block = wb.ForEach(block, sub.index(params[1]), name=f"foreach {i}", position=(i, i))
                inner.append(sub)
            else:
                block = make_block(kind, params, i, names)
                inner.append(None)
            blocks.append(block)
        self.parts = blocks
        self.inner = inner
        nbv_types = {k: TYPES.get(t) for k, t in enumerate(recipe["nbvs"])}
        self.nbvs = [Variable(type_=nbv_types[k], name=f"shared {k}" if names == "own" else "shared", label=f"Shared {k}", position=(k, k))
                     for k in range(len(recipe["nbvs"]))]
        pipes = []
        for i, block in enumerate(recipe["blocks"]):
            for port, _, source in source_items(block):
                if source is not None:
                    upstream = self.nbvs[source[1]] if source[0] == "nbv" else \
                        blocks[source[1]].outputs[source[2]]
                    pipes.append(Pipe(upstream, self.variable(("b", i, port))))
        random.Random(recipe["pipes"]).shuffle(pipes)
        for key, (mode, value) in recipe["values"].items():
            if mode == "given" and self.variable(key).locked:
                # Locked in the inner workflow, and freed in this one
                self.variable(key).unlock()
            if mode == "default":
                self.variable(key).default_value = actual(value)
            elif mode == "locked":
                self.variable(key).lock(actual(value))
        output = blocks[recipe["output"][0]].outputs[recipe["output"][1]]
        self.workflow = Workflow([blocks[i] for i in recipe["order"]], pipes, output, name=name, **kwargs)

    def variable(self, key):
        if key[0] == "nbv":
            return self.nbvs[key[1]]
        _, block, port = key
        if self.inner[block] is not None:
            port = self.inner[block].index(port)
        return self.parts[block].inputs[port]

    def index(self, key):
        """ Index among the inputs of the workflow. """
        return self.workflow.inputs.index(self.variable(key))

    def block_index(self, block):
        return self.recipe["order"].index(block)

    def inputs(self, given=None):
        """ Argument of run. """
        given = given_values(self.recipe) if given is None else given
        return {self.index(k): actual(v) for k, v in given.items()}
