""" P15: exports. """
import contextlib
import io
import json
import os
import shutil
import tempfile
import zipfile

import docx
import openpyxl
from hypothesis import strategies as st

import objects
import vexports
from engine import Sub, expect
from dessia_common.core import DessiaObject
from dessia_common.document_generator import DocxWriter, Footer, Header, Heading, Paragraph, Section, Table
from dessia_common.exports import MarkdownWriter
from dessia_common.files import BinaryFile, StringFile

WORDS = st.text(alphabet="abcXYZ 019é€.,;'\"#*-", max_size=12)
TITLES = st.one_of(WORDS, st.sampled_from(["Part #3", "a---b", "#### deep #### title ####", "| x", "12", "=1+1"]))
NUMBERS = st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.integers(-10, 10).map(float))


@st.composite
def sheets(draw):
    title = draw(WORDS)
    return (draw(st.sampled_from(["Sheet", "SmallSheet"])), title, draw(NUMBERS), draw(st.lists(NUMBERS, max_size=3)),
            draw(st.one_of(st.none(), WORDS, st.integers(0, 3), st.booleans())), draw(WORDS))


def make(recipe):
    kind, title, number, items, other, name = recipe
    return getattr(vexports, kind)(title, number, list(items), other, name=name)


def book_cells(raw):
    book = openpyxl.load_workbook(io.BytesIO(raw))
    return {sheet.title: [[c.value for c in row] for row in sheet.iter_rows()] for sheet in book.worksheets}


def document_texts(raw):
    document = docx.Document(io.BytesIO(raw))
    return ([(p.style.name, p.text) for p in document.paragraphs],
            [[[c.text for c in row.cells] for row in table.rows] for table in document.tables])


def comparable(kind, raw):
    """ Workbooks and documents hold dates: compare what they tell. """
    if kind == "xlsx":
        return book_cells(raw)
    if kind == "docx":
        return document_texts(raw)
    return raw


def judge_exports(case, ctx):
    recipe, filenames = case
    sheet = make(recipe)
    wanted = {**vexports.TEXTS, **vexports.BINARIES, **vexports.BOOKS, **vexports.DOCUMENTS, "zip": "zip"}
    if recipe[0] == "SmallSheet":
        wanted["small"] = "csv"
    formats = {f.selector: f for f in sheet._export_formats()}
    expect({s: f.extension for s, f in formats.items()} == wanted,
           lambda: f"formats {[(s, f.extension) for s, f in formats.items()]}, expected {wanted}")
    expect(len(sheet._export_formats()) == len(wanted), "a format is told twice")
    folder = tempfile.mkdtemp(prefix="p15")
    contents = {}
    try:
        for selector, extension in wanted.items():
            filename = filenames[len(contents) % len(filenames)]
            if filename.endswith("!"):
                filename = f"{filename[:-1]}.{extension}"
            place = os.path.join(folder, selector)
            os.mkdir(place)
            found = sheet.save_export_to_file(selector, os.path.join(place, filename))
            name = filename if filename.endswith(f".{extension}") else f"{filename}.{extension}"
            expect(os.listdir(place) == [name], lambda: f"{selector} export saved as {os.listdir(place)}, not {name}")
            expect(os.path.samefile(found, os.path.join(place, name)), lambda: f"{selector}: {found} is told")
            with open(found, "rb") as file:
                raw = file.read()
            contents[selector] = raw
            # The same as by stream
            if selector != "zip":
                stream = StringFile() if formats[selector].text else BinaryFile()
                getattr(sheet, formats[selector].method_name)(stream, **formats[selector].args)
                value = stream.getvalue()
                value = value.encode("utf-8") if isinstance(value, str) else value
                expect(comparable(extension, value) == comparable(extension, raw),
                       lambda: f"{selector}: other content by stream")
        for selector in ["table", "list", "page", "shape", "raw"] + (["small"] if "small" in wanted else []):
            text = vexports.content(sheet, selector)
            expect(contents[selector] == (text if isinstance(text, bytes) else text.encode("utf-8")),
                   lambda: f"{selector} export holds {contents[selector]!r}")
        expect(DessiaObject.dict_to_object(json.loads(contents["json"])) == sheet, "the json export is another object")
        paragraphs, _ = document_texts(contents["report"])
        expect([t for _, t in paragraphs] == [sheet.title, str(sheet.number)], lambda: f"report {paragraphs}")
        # Archives hold every other export
        raw_archive = BinaryFile()
        sheet.to_zip_stream(raw_archive)
        sheet.to_zip(os.path.join(folder, "whole"))
        with open(os.path.join(folder, "whole.zip"), "rb") as file:
            archives = {"save_export_to_file": contents["zip"], "to_zip_stream": raw_archive.getvalue(), "to_zip": file.read()}
        for how, raw in archives.items():
            with zipfile.ZipFile(io.BytesIO(raw)) as archive:
                expect(archive.testzip() is None, f"{how}: the archive is broken")
                names = archive.namelist()
                expect(len(set(names)) == len(names), lambda: f"{how}: the archive holds twice a name: {names}")
                entries = [(n.rpartition(".")[2], archive.read(n)) for n in names]
            for selector, extension in wanted.items():
                if selector == "zip":
                    continue
                same = [e for e in entries if e[0] == extension
                        and comparable(extension, e[1]) == comparable(extension, contents[selector])]
                expect(same, lambda: f"{how}: the archive does not hold the {selector} export: {names}")
            expect(len(entries) == len(wanted) - 1, lambda: f"{how}: the archive holds {names}")
    finally:
        shutil.rmtree(folder)
    for unknown in ("nothing", "", "csv"):
        try:
            sheet.save_export_to_file(unknown, "/nonexistent/place")
            raise AssertionError
        except ValueError:
            pass
        except AssertionError:
            expect(False, f"export {unknown!r} is not refused")
    ctx.hit(recipe[0])


WRITERS = {"save_to_file": "json", "to_xlsx": "xlsx", "to_docx": "docx", "to_zip": "zip"}


def judge_named(case, ctx):
    """ The methods that write a file, with any name. """
    recipe, method, name = case
    sheet = make(recipe)
    extension = WRITERS[method]
    name = name.replace("!", extension)
    wanted = name if name.endswith(f".{extension}") else f"{name}.{extension}"
    folder = tempfile.mkdtemp(prefix="p15")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(sheet, method)(os.path.join(folder, name))
        expect(os.listdir(folder) == [wanted], lambda: f"{method} of {name} wrote {os.listdir(folder)}")
        with open(os.path.join(folder, wanted), "rb") as file:
            raw = file.read()
    finally:
        shutil.rmtree(folder)
    if extension == "json":
        expect(DessiaObject.dict_to_object(json.loads(raw)) == sheet, "the file holds another object")
    elif extension == "zip":
        with zipfile.ZipFile(io.BytesIO(raw)) as archive:
            expect(archive.testzip() is None and archive.namelist(), "the archive is broken or empty")
    else:
        stream = BinaryFile()
        getattr(sheet, f"{method}_stream")(stream)
        expect(comparable(extension, raw) == comparable(extension, stream.getvalue()), "other content by stream")
    ctx.hit(method)


# --- Markdown --------------------------------------------------------------------------------------------------------

CELLS = st.one_of(NUMBERS, WORDS, st.integers(-100, 100), st.none(), st.lists(st.integers(0, 3), max_size=3),
                  st.dictionaries(st.sampled_from("ab"), st.integers(0, 2)), st.text(alphabet="ab ", min_size=20, max_size=40),
                  st.complex_numbers(max_magnitude=100, allow_nan=False), st.text(alphabet="ab\n", min_size=2, max_size=6))


def value_text(value):
    """ What a table should show of a value. None: not decided. """
    if isinstance(value, (float, int)):
        return str(round(value, 6))
    if isinstance(value, str):
        return value or "no value"
    if value is None:
        return " - "
    if isinstance(value, complex):
        return None
    items = list(value.values()) if isinstance(value, dict) else value
    if not items:
        return None
    return f"{len(items)} int{'s' if len(items) > 1 else ''}"


def shown(text, limit):
    return text[:limit] + ("..." if len(text) > limit else "")


def cells_of(line):
    expect(line.startswith("|") and line.endswith("|"), lambda: f"{line!r} is not a line of a table")
    return [c.strip() for c in line[1:-1].split("|")]


@st.composite
def tables(draw):
    width = draw(st.integers(1, 4))
    rows = draw(st.lists(st.lists(CELLS, min_size=width, max_size=width), max_size=9))
    names = [draw(st.sampled_from(["attribute", "Size", "éa", "x y"])) for _ in range(width)]
    return rows, names, draw(st.sampled_from([None, 2, 3, 4, 5, 6, 7, 8, 12])), draw(st.sampled_from([5, 25, 60]))


def same_cells(found, row, limit, what):
    expect(len(found) == len(row), lambda: f"{what}: {len(found)} cells for {len(row)}")
    for cell, value in zip(found, row):
        text = value_text(value)
        if text is not None and "\n" not in text:
            expect(cell == shown(text, limit).strip(), lambda: f"{what}: {value!r} shown as {cell!r}")


def judge_table(case, ctx):
    rows, names, limit, width = case
    text = MarkdownWriter(print_limit=width, table_limit=limit).matrix_table(rows, names)
    lines = text.split("\n")
    expect(lines[-1] == "", "the table does not end with its last line")
    lines = lines[:-1]
    expect(cells_of(lines[0]) == [n.capitalize() for n in names], lambda: f"titles {lines[0]}")
    expect(cells_of(lines[1]) == ["------"] * len(names), lambda: f"separator {lines[1]}")
    body = lines[2:]
    if limit is None or len(rows) <= limit:
        expect(len(body) == len(rows), lambda: f"{len(body)} lines for {len(rows)} rows, limit {limit}: {body}")
        for line, row in zip(body, rows):
            same_cells(cells_of(line), row, width, "table")
        ctx.hit("whole table") if len(rows) > 2 else None
        return
    cut = [i for i, line in enumerate(body) if "unprinted elements" in line]
    expect(len(cut) == 1, lambda: f"cut table of {len(rows)} rows: {body}")
    head, tail = body[:cut[0]], body[cut[0] + 1:]
    hidden = int(body[cut[0]].split("+")[1].split()[0])
    expect(len(head) + len(tail) <= limit, lambda: f"{len(head) + len(tail)} rows shown, limit {limit}")
    expect(len(head) + len(tail) + hidden == len(rows),
           lambda: f"{len(head)} + {len(tail)} rows shown, {hidden} said unprinted, of {len(rows)}")
    expect(len(head) == len(tail) and len(head) == limit // 2, "the two parts of the table")
    for line, row in zip(head + tail, rows[:len(head)] + rows[len(rows) - len(tail):]):
        same_cells(cells_of(line), row, width, "cut table")
    ctx.hit("cut table")


def judge_object_table(case, ctx):
    values, name = case
    sheet = vexports.Sheet("t", 1., [1.], name=name)
    sheet.__dict__.update(values)
    for text in (MarkdownWriter(print_limit=25, table_limit=None).object_table(sheet), sheet.to_markdown()):
        lines = [line for line in text.split("\n") if line.startswith("|")][2:]
        found = {}
        for line in lines:
            cells = cells_of(line)
            expect(len(cells) == 3, lambda: f"line {line!r}")
            expect(cells[0] not in found, f"{cells[0]} twice")
            found[cells[0]] = cells[1:]
        expect(set(found) == set(sheet.__dict__), lambda: f"attributes {set(found)}")
        for attribute, value in sheet.__dict__.items():
            expect(found[attribute][0] == shown(type(value).__name__, 25), f"type of {attribute}")
            expected = value_text(value) if not isinstance(value, list) or attribute != "items" else "1 float"
            if expected is not None and "\n" not in expected:
                expect(found[attribute][1] == shown(expected, 25).strip(),
                       lambda: f"{attribute} {value!r} shown as {found[attribute][1]!r}")
    if name:
        expect(name in sheet.to_markdown(), "the name is not shown")
    if values:
        ctx.hit("attributes")


# --- Documents -------------------------------------------------------------------------------------------------------

PLAIN = st.text(alphabet="abcXYZ 019é€.,;'\"*-", min_size=1, max_size=12).map(str.strip).filter(
    lambda t: t and set(t) != {"-"})
HEADS = st.one_of(PLAIN, st.sampled_from(["Part #3", "a # b # c", "C#", "issue #1 ##2 ###3 ####4 #####5"])).filter(
    lambda t: not t.startswith("#"))
CELL = st.one_of(PLAIN, st.just("a---b"), st.just("#1"))
ELEMENTS = st.one_of(st.tuples(st.just("heading"), st.integers(1, 4), HEADS),
                     st.tuples(st.just("text"), st.one_of(PLAIN, st.sampled_from(["x --- y", "1 # 2"]))),
                     st.tuples(st.just("table"), st.integers(1, 3).flatmap(
                         lambda n: st.lists(st.lists(CELL, min_size=n, max_size=n), min_size=1, max_size=3))))


def content_of(writer):
    """ What python-docx reads in the saved document: body, texts of the header and of the footer. """
    stream = BinaryFile()
    writer.save_to_stream(stream)
    document = docx.Document(io.BytesIO(stream.getvalue()))
    found = []
    tables, paragraphs = iter(document.tables), iter(document.paragraphs)
    for child in document.element.body.iterchildren():
        if child.tag.endswith("}p"):
            paragraph = next(paragraphs)
            style = paragraph.style.name
            if style.startswith("Heading") or style == "Title":
                found.append(("heading", int(style.split()[-1]) if style != "Title" else 0, paragraph.text.strip()))
            elif paragraph.text.strip():
                found.append(("text" if style == "Normal" else style, paragraph.text.strip()))
        elif child.tag.endswith("}tbl"):
            for row in next(tables).rows:
                found.append(("row", [c.text.strip() for c in row.cells]))
    ends = [[(p.text, p.alignment) for p in part.paragraphs if p.text.strip()]
            for part in (document.sections[0].header, document.sections[0].footer)]
    return found, ends[0], ends[1]


ALIGN = {"left": 0, "center": 1, "right": 2}
GRIDS = st.integers(1, 3).flatmap(lambda n: st.lists(st.lists(PLAIN, min_size=n, max_size=n), min_size=1, max_size=3))
OPERATIONS = st.one_of(st.just(("headings",)), st.tuples(st.just("paragraphs"), st.booleans()), st.just(("tables",)),
                       st.tuples(st.just("table"), st.integers(0, 5)), st.tuples(st.just("break"), st.integers(0, 2)),
                       st.tuples(st.just("title"), st.integers(1, 5), PLAIN),
                       st.tuples(st.just("list"), st.sampled_from(["List Bullet", "List Number"]),
                                 st.lists(PLAIN, max_size=3)))
PARTS = st.fixed_dictionaries({
    "headings": st.lists(st.tuples(PLAIN, st.integers(1, 4)), max_size=3), "paragraphs": st.lists(PLAIN, max_size=3),
    "tables": st.lists(GRIDS, max_size=3), "erase": st.booleans(),
    "ends": st.lists(st.tuples(st.sampled_from(["header", "footer"]), PLAIN, st.sampled_from(sorted(ALIGN))), max_size=3),
    "operations": st.lists(OPERATIONS, max_size=6)})


def judge_writer(case, ctx):
    """ A document written part by part. """
    section = Section()
    ends = {"header": [], "footer": []}
    for kind, text, align in case["ends"]:
        section.add_element((Header if kind == "header" else Footer)(text, align))
        ends[kind].append((text, ALIGN[align]))
    writer = DocxWriter(paragraphs=[Paragraph(p) for p in case["paragraphs"]], section=section,
                        headings=[Heading(*h) for h in case["headings"]], tables=[Table(t) for t in case["tables"]])
    left, expected = list(case["headings"]), []
    for operation in case["operations"]:
        if operation[0] == "headings":
            writer.add_headings()
            expected += [("heading", level, text) for text, level in left]
        elif operation[0] == "paragraphs":
            writer.add_paragraphs(add_heading=operation[1])
            for text in case["paragraphs"]:
                if left and operation[1]:
                    expected.append(("heading", left[0][1], left.pop(0)[0]))
                expected.append(("text", text))
        elif operation[0] == "tables":
            writer.add_table(add_all_tables=True)
            expected += [("row", row) for table in case["tables"] for row in table]
        elif operation[0] == "table" and case["tables"]:
            index = operation[1] % len(case["tables"])
            writer.add_table(table_index=index)
            expected += [("row", row) for row in case["tables"][index]]
        elif operation[0] == "list":
            writer.add_list_items(operation[2], style=operation[1])
            expected += [(operation[1], item) for item in operation[2]]
        elif operation[0] == "title":
            text = "#" * operation[1] + " " + operation[2]
            writer.add_paragraph_as_heading(text)
            expected.append(("heading", operation[1], text))
        elif operation[0] == "break":
            writer.add_page_breaks(operation[1])
    if case["erase"]:
        writer.delete_layout_element()
        ends = {"header": [], "footer": []}
    body, header, footer = content_of(writer)
    expect(body == expected, lambda: f"the document holds {body}, expected {expected}")
    expect(header == ends["header"] and footer == ends["footer"],
           lambda: f"header {header} and footer {footer}, expected {ends}")
    if len(expected) > 1:
        ctx.hit("erased" if case["erase"] else "kept")


def judge_document(case, ctx):
    lines, headings, expected = [], [], []
    for element in case:
        if element[0] == "heading":
            lines += [f"{'#' * element[1]} {element[2]}", ""]
            headings.append((element[1], element[2]))
            expected.append(("heading", element[1], element[2]))
        elif element[0] == "text":
            lines += [element[1], ""]
            expected.append(("text", element[1]))
        else:
            width = len(element[1][0])
            lines += ["| " + " | ".join(element[1][0]) + " |", "| ------ " * width + "|"]
            lines += ["| " + " | ".join(row) + " |" for row in element[1][1:]] + [""]
            expected += [("row", row) for row in element[1]]
    found, _, _ = content_of(DocxWriter.from_markdown("\n".join(lines)))
    summary = [("heading", *h) for h in headings]
    expect(found == summary + expected,
           lambda: f"the document holds {found}, expected {summary} then {expected}")
    if len(case) > 1:
        ctx.hit(*(e[0] for e in case))


SUBS = [
    Sub("exports of an object", st.tuples(sheets(), st.lists(st.sampled_from(
        ["file", "file!", "file.csv", "é x", "a.b", "mycsv", "filezip!", "json", "x.json.json"]), min_size=1, max_size=4)),
        judge_exports, quick=48, thorough=1500, shards=6, rule="all: an object with eleven exports or more"),
    Sub("named files", st.tuples(sheets(), st.sampled_from(sorted(WRITERS)), st.sampled_from(
        ["file", "file.!", "a.b", "my!", "!", "é x", "x.!.!", "file.csv", "x.!.old", "x.!2", "X.!!"])), judge_named, quick=240, thorough=2500, shards=6,
        rule="all"),
    Sub("tables", tables(), judge_table, quick=600, thorough=20000, shards=1, rule="three rows or more"),
    Sub("object tables", st.tuples(st.dictionaries(st.sampled_from(["title", "number", "other", "more", "again"]), CELLS),
                                   WORDS), judge_object_table, quick=400, thorough=10000, rule="some attributes drawn"),
    Sub("documents by parts", PARTS, judge_writer, quick=150, thorough=3000, shards=2, rule="two elements or more"),
    Sub("documents", st.lists(ELEMENTS, max_size=6), judge_document, quick=150, thorough=3000, shards=3,
        rule="two elements or more"),
]
