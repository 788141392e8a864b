""" P22: the displays and exports of a run are those of the values it computed, also once copied or reloaded. """
import copy
import io
import json
import zipfile

import docx
from hypothesis import strategies as st

import workflows as wf
from engine import Sub, expect
from dessia_common.files import BinaryFile, StringFile
from dessia_common.workflow.core import WorkflowRun, WorkflowState

DISPLAYS = ("markdown", "plot", "multiplot", "multiobject")
EXPORTS = ("export", "exportb", "archive")
OPERATIONS = st.one_of(st.tuples(st.just("display"), st.integers(0, 5)), st.tuples(st.just("display"), st.integers(0, 5)),
                       st.tuples(st.just("export"), st.integers(0, 5)),
                       st.tuples(st.sampled_from(["copy", "reload", "reload"]), st.just(0)))


def selectors(recipe):
    """ Selectors of the display blocks; they have to be different. """
    found = []
    for kind, params, _ in recipe["blocks"]:
        if kind in ("markdown", "plot"):
            found.append(wf.view_name(kind, params))
        elif kind in ("multiplot", "multiobject"):
            found.append(params)
    return found


@st.composite
def cases(draw, early=False, **kwargs):
    """ Workflows with displays or exports; the output of an `early` one does not need the last blocks. """
    recipe = draw(wf.recipes(sinks=True, **kwargs))
    if early:
        first = [i for i, b in enumerate(recipe["blocks"]) if b[0] in ("make", "scaled")]
        if first:
            recipe["output"] = (draw(st.sampled_from(first[:2])), 0)
    return recipe, draw(st.lists(OPERATIONS, min_size=1, max_size=8)), draw(st.booleans())


def samples_of(dict_):
    return [{k: v for k, v in sample.items() if k in ("size", "weight", "label")} for sample in dict_["elements"]]


def judge_display(recipe, block, found, expected, path):
    kind, params, _ = recipe["blocks"][block]
    if kind == "markdown":
        name = wf.view_name(kind, params)
        expect(found == expected + (path if name == "Card" else ""), lambda: f"{name} shows {found!r}")
    elif kind == "plot":
        label, x, y = expected
        point = found.primitives[0]
        expect((found.name, point.cx, point.cy) == (label, x, y), lambda: f"plot shows {point.cx}, {point.cy}")
    else:
        elements = found["elements"]
        values = [sample.get("values", sample) for sample in elements]
        expect([(v["size"], v["weight"]) for v in values] == expected, lambda: f"{kind} shows {values}")
        expect([e["reference_path"] for e in elements] == [f"{path}/{i}" for i in range(len(expected))],
               "samples refer to other objects")


def content(kind, stream):
    if kind == "export":
        return stream.filename, stream.getvalue()
    return stream.filename, stream.getvalue()


def unzipped(data):
    with zipfile.ZipFile(io.BytesIO(data)) as archive:
        return [(info.filename, archive.read(info)) for info in archive.infolist()]


def judge_export(kind, stream, expected):
    name, data = expected
    expect(stream.filename == name, lambda: f"file named {stream.filename}, not {name}")
    if kind == "archive":
        files = [(n, d.encode() if isinstance(d, str) else d) for n, d in data]
        expect(sorted(unzipped(stream.getvalue())) == sorted(files), "archive holds other files")
    else:
        expect(stream.getvalue() == data, lambda: f"{stream.getvalue()!r} exported, not {data!r}")


def judge(case, ctx):
    recipe, operations, stepped = case
    names = selectors(recipe)
    if len(set(names)) < len(names):
        return
    archived = [b for b in recipe["blocks"] if b[0] == "archive"]
    try:
        results = wf.interpret(recipe, only=range(len(recipe["blocks"])))
    except IndexError:
        return
    for i, block in enumerate(recipe["blocks"]):
        if block[0] == "archive":
            inner = [n for n, _ in results[i][0][1]]
            if len(set(inner)) < len(inner):
                return  # Files of the same name
    built = wf.Built(recipe)
    workflow = built.workflow
    displays = [i for i, b in enumerate(recipe["blocks"]) if b[0] in DISPLAYS]
    exports = [i for i, b in enumerate(recipe["blocks"]) if b[0] in EXPORTS]
    if not displays and not exports:
        return
    if stepped:
        run = workflow.start_run(built.inputs())
        run.continue_run()
    else:
        run = workflow.run(built.inputs())
    output = results[recipe["output"][0]][recipe["output"][1]]
    settings = {s.selector: s for s in run.display_settings()}
    expect(len(settings) == len(displays) + 1 and set(names) < set(settings),
           lambda: f"display settings {list(settings)} for {names}")
    formats = {f.args["block_index"]: f for f in workflow.blocks_export_formats}
    expect(set(formats) == {built.block_index(i) for i in exports}, "export formats of other blocks")
    expect(len({f.selector for f in formats.values()}) == len(formats), "export formats have the same selector")
    for index, format_ in formats.items():
        expect(run.export_format_from_selector(format_.selector).args == {"block_index": index}, "export by selector")
    for i in displays:
        kind, params, _ = recipe["blocks"][i]
        setting = settings[wf.view_name(kind, params) if kind in ("markdown", "plot") else params]
        expect((setting.load_by_default, setting.type) == (wf.is_loaded(kind, params),
                                                           "markdown" if kind == "markdown" else "plot_data"),
               lambda: f"{kind} is announced as {setting.type}, loaded: {setting.load_by_default}")
    for i in exports:
        kind, params, _ = recipe["blocks"][i]
        format_ = formats[built.block_index(i)]
        ending = "zip" if kind == "archive" else wf.extension(kind, params)
        expected = {"export": (ending, True, params), "exportb": (ending, False, params), "archive": ("zip", False, "archive")}
        expect((format_.extension, format_.text, format_.export_name) == expected[kind],
               lambda: f"{kind} is announced as {format_.extension}, {format_.text}, {format_.export_name}")
    done, changes = set(), set()
    everything = [("display", i) for i in range(len(displays))] + [("export", i) for i in range(len(exports))]
    for name, number in [*operations, *everything, ("reload", 0), *everything]:
        if name == "display" and displays:
            block = displays[number % len(displays)]
            kind, params, _ = recipe["blocks"][block]
            selector = wf.view_name(kind, params) if kind in ("markdown", "plot") else params
            setting = next(s for s in run.display_settings() if s.selector == selector)
            expect(setting.arguments["block_index"] == built.block_index(block), "display settings of another block")
            path = setting.arguments["reference_path"]
            found = run.block_display(**setting.arguments)
            judge_display(recipe, block, found, results[block][0], path)
            if kind == "multiplot" and not stepped and results[block][0]:
                part = run._get_from_path(f"{path}/0")
                expect((part.size, part.weight) == results[block][0][0], "the reference of a sample is another object")
            done.add(kind)
        elif name == "export" and exports:
            block = exports[number % len(exports)]
            kind = recipe["blocks"][block][0]
            stream = StringFile("out") if kind == "export" else BinaryFile("out")
            returned = run.export(stream, built.block_index(block))
            judge_export(kind, stream, results[block][0])
            judge_export(kind, returned, results[block][0])
            done.add(kind)
        elif name == "copy":
            other = copy.deepcopy(run)
            expect(other == run, "the copy is not equal")
            run = other
            changes.add(name)
        elif name == "reload":
            class_ = WorkflowState if stepped else WorkflowRun
            other = class_.dict_to_object(json.loads(json.dumps(run.to_dict())))
            expect(other == run, "the reloaded run is not equal")
            run = other
            changes.add(name)
        expect(wf.plain(run.output_value) == output, lambda: f"{name} changed the output")
        expect(run.progress == 1, lambda: f"{name} changed the progress")
    if not stepped:
        streams = run.zip_settings()
        files = [i for i in exports if recipe["blocks"][i][0] != "archive"]
        files.sort(key=built.block_index)
        expect(len(streams) == len(files), lambda: f"{len(streams)} streams to archive for {len(files)} exports")
        for i, stream in zip(files, streams):
            judge_export(recipe["blocks"][i][0], stream, results[i][0])
        names = [results[i][0][0] for i in files]
        if len(set(names)) == len(names):
            archive = BinaryFile("out")
            run.to_zip_stream(archive)
            wanted = [(n, d.encode("utf-8") if isinstance(d, str) else d) for n, d in (results[i][0] for i in files)]
            expect(sorted(unzipped(archive.getvalue())) == sorted(wanted), "the archive of the run holds other files")
            if files:
                done.add("archive of the run")
    ctx.hit(*done, *changes)


def rows_of(text):
    """ Rows of the table that ends a text, cells being stripped. """
    rows = [[c.strip() for c in line.split("|")[1:-1]] for line in text.splitlines() if line.startswith("|")]
    start = max(i for i, row in enumerate(rows) if set(row) == {"------"})
    return rows[start + 1:]


def cell(text):
    """ How a name is shown in a table. """
    if not text:
        return "no value"
    text = " ".join(text.splitlines())
    return (text[:25] + ("..." if len(text) > 25 else "")).strip()


def judge_told(case, ctx):
    """ Texts and displays of runs and states tell how far they are, at any moment. """
    recipe, steps, changes = case
    names = selectors(recipe)
    if len(set(names)) < len(names) or any(b[0] == "archive" for b in recipe["blocks"]):
        return
    built = wf.Built(recipe, name="tested & wf")
    workflow = built.workflow
    state = workflow.start_run(built.inputs(), name="told")
    evaluated, failed = [], None
    for step in range(steps + 1):
        text = state.to_markdown()
        expect("told" in text and "tested & wf" in text, "the text does not tell the names")
        expect(f"{100 * state.progress}%" in text, lambda: f"progress {state.progress} is not told in {text}")
        rows = rows_of(text)
        done = [cell(b.name) for b in evaluated] + ([] if failed is None else [cell(failed.name)])
        expect(sorted(r[0] for r in rows) == sorted(done), lambda: f"rows {rows} for {done} evaluated")
        expect(all(len(r) == 4 and r[1] and r[2] for r in rows), lambda: f"memory told {rows}")
        if failed is not None:
            break
        if changes and step % 2:
            state = state.copy() if changes == 1 else WorkflowState.dict_to_object(json.loads(json.dumps(state.to_dict())))
        try:
            block = state.evaluate_next_block()
        except Exception:  # The last one told to start is the one that failed
            failed = state.execution_info.before_block_memory_usage[-1][0]
            ctx.hit("failed")
            continue
        if block is None:
            break
        evaluated.append(block)
    try:
        run = workflow.run(built.inputs(), name="told")
        state.continue_run()
    except Exception:
        return
    shown = state._displays()
    expect(len(shown) == len(names) + 1, lambda: f"{len(shown)} displays of the state for {len(names)} blocks")
    expect(not any(d["traceback"] for d in shown[1:]), lambda: f"a display of the state fails: {shown}")
    for again, where in ((run, "the run"), (run.copy(), "its copy"),
                         (WorkflowRun.dict_to_object(json.loads(json.dumps(run.to_dict()))), "it reloaded")):
        text = again.to_markdown()
        expect("told" in text and "tested & wf" in text, "the text does not tell the names")
        output = again.output_value
        if isinstance(output, (list, tuple)):
            expect(f"{len(output)} element" in text, lambda: f"{text} for {output}")
            ctx.hit("list")
        elif output is None or isinstance(output, (str, int, float, dict)):
            expect(isinstance(output, dict) or str(output).strip() in text, lambda: f"{text} for {output!r}")
            ctx.hit(type(output).__name__)
        else:
            for name, value in vars(output).items():
                line = next((l for l in text.splitlines() if l.startswith(f"| {name} ")), None)
                expect(line is not None and type(value).__name__[:25] in line, lambda: f"{name} is not told in {text}")
            ctx.hit("object")
        found = again._displays()
        expect(len(found) == len(names) + 1, lambda: f"{len(found)} displays of {where} for {len(names)} blocks")
        expect(not any(d["traceback"] for d in found), lambda: f"a display of {where} fails: {found}")
        expect(found[0]["data"].split() == text.split(), "the documentation displayed is not the text")
    document = BinaryFile("text.docx")
    run.to_docx_stream(document)
    found = "\n".join(p.text for p in docx.Document(document).paragraphs)
    expect("tested & wf" in found, lambda: f"the document of the run is {found!r}")


TWICE = ["make", "scaled", "scaled", "seqp", "seqp", "catp"]
RULE = "something is displayed or exported"
KINDS = [k for k in wf.ORDINARY if k != "product"]
PARTS = ["make", "grown", "from_sum", "seqp", "filter", "catp", "minus", "scaled"]
TOLD = st.tuples(wf.recipes(sinks=True, max_blocks=8, depth=1), st.integers(0, 10), st.sampled_from([0, 0, 1, 2]))
SUBS = [
    Sub("told", TOLD, judge_told, quick=250, shards=2, rule="the run ends, or a block fails"),
    Sub("all", cases(kinds=KINDS, max_blocks=7, min_blocks=2, depth=0), judge, quick=300, shards=2, rule=RULE),
    Sub("parts", cases(kinds=PARTS, max_blocks=8, min_blocks=3, depth=0), judge, quick=260, shards=2, rule=RULE),
    Sub("twice", cases(kinds=TWICE, max_blocks=7, min_blocks=4, depth=0, twice=True), judge, quick=300, shards=2, rule=RULE),
    Sub("wide", cases(kinds=["make", "scaled", "seqp", "seqp", "seqp"], max_blocks=5, min_blocks=4, depth=0, twice=True, wide=True,
                      early=True), judge, quick=240,
        rule=RULE),
]
