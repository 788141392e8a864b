""" P16: files held in memory. """
import io
import os
import shutil
import tempfile
import zipfile

from hypothesis import strategies as st

from engine import Sub, expect
from dessia_common import files
from dessia_common.serialization import serialize

TEXTS = [files.StringFile, files.TextFile, files.CSVFile, files.MarkdownFile, files.JsonFile]
BINARIES = [files.BinaryFile, files.XLSXFile, files.XLSFile, files.XLSMFile, files.DocFile, files.DocxFile]
CLASSES = {c.__name__: c for c in TEXTS + BINARIES}
TEXT = st.text(alphabet="abc ,;\n\r\té€漢\"'|{}0", max_size=30)
BYTES = st.binary(max_size=30)
NAMES = st.sampled_from(["", "a.txt", "data", "sub.dir/x.csv", "é.bin", "twice.txt.txt"])
POSITION = st.integers(0, 40)


@st.composite
def contents(draw):
    name = draw(st.sampled_from(sorted(CLASSES)))
    content = draw(TEXT if CLASSES[name] in TEXTS else BYTES)
    return name, content, draw(NAMES), draw(POSITION)


def build(recipe):
    name, content, filename, position = recipe
    file = CLASSES[name](filename)
    file.write(content)
    file.seek(min(position, len(content)))
    return file


def is_file(file, recipe, what, filename=None):
    """ The class, the name and the whole content. """
    name, content, own, _ = recipe
    expect(type(file) is CLASSES[name], lambda: f"{what} is a {type(file).__name__}, not a {name}")
    expect(file.getvalue() == content, lambda: f"{what} holds {file.getvalue()!r}, not {content!r}")
    wanted = own if filename is None else filename
    expect(file.filename == wanted, lambda: f"{what} is named {file.filename!r}, not {wanted!r}")


def judge_copy(case, ctx):
    recipe, more = case
    file = build(recipe)
    place = file.tell()
    copied = file.copy()
    is_file(copied, recipe, "the copy")
    expect(copied.read() == recipe[1], "the copy is not read from its start")
    expect(file.tell() == place, "copying moved the position of the file")
    expect(copied == file and file == copied and hash(copied) == hash(file), "the copy differs from the file")
    added = "x" * more if CLASSES[recipe[0]] in TEXTS else b"x" * more
    copied.seek(0, io.SEEK_END)
    copied.write(added)
    is_file(file, recipe, "the file, after writing in its copy,")
    expect((copied == file) == (more == 0), "files of other contents are equal, or equal ones are not")
    file.seek(0, io.SEEK_END)
    file.write(added)
    expect(copied == file, "files of the same content differ")
    if recipe[1]:
        ctx.hit("text" if CLASSES[recipe[0]] in TEXTS else "binary")


def judge_equal(case, ctx):
    first, second = case
    files_ = build(first), build(second)
    text = [CLASSES[r[0]] in TEXTS for r in case]
    wanted = text[0] == text[1] and first[1] == second[1] and first[2] == second[2]
    expect((files_[0] == files_[1]) is wanted, lambda: f"{first} and {second}: {files_[0] == files_[1]}")
    expect((files_[1] == files_[0]) is wanted, "the equality is not the same the other way")
    if wanted:
        expect(hash(files_[0]) == hash(files_[1]), "equal files of different hashes")
        ctx.hit("equal")
    else:
        ctx.hit("different")
    for other in (None, first[1], 3, [], "a.txt"):
        expect(not files_[0] == other, lambda: f"a file equals {other!r}")


@st.composite
def pairs(draw):
    first = draw(contents())
    second = draw(contents())
    same = draw(st.lists(st.booleans(), min_size=2, max_size=2))
    content = first[1] if same[0] else second[1]
    kind = second[0]
    if isinstance(content, str) != (CLASSES[kind] in TEXTS):
        kind = draw(st.sampled_from([c.__name__ for c in (TEXTS if isinstance(content, str) else BINARIES)]))
    return first, (kind, content, first[2] if same[1] else second[2], second[3])


def judge_disk(case, ctx):
    """ What is read from the disk, or from a stream, is what is there. """
    recipe, name = case
    folder = tempfile.mkdtemp(prefix="p16")
    try:
        class_ = CLASSES[recipe[0]]
        path = os.path.join(folder, name)
        raw = recipe[1].encode("utf-8") if class_ in TEXTS else recipe[1]
        with open(path, "wb") as stream:
            stream.write(raw)
        file = class_.from_file(path)
        told = recipe[1]
        if class_ in TEXTS and "\r" in told and file.getvalue() != told:
            # A text file may be opened as Python does by default: any end of line is then read as "\\n"
            told = told.replace("\r\n", "\n").replace("\r", "\n")
            ctx.hit("ends of lines translated")
        is_file(file, (recipe[0], told) + tuple(recipe[2:]), "the file read", filename=path)
        expect(file.read() == told, "the file is not read from its start")
        expect(class_.from_file(path) == file, "the same file read twice differs")
        if class_ in TEXTS:
            streamed = class_.from_stream(io.BytesIO(raw))
            expect(streamed.read() == recipe[1], lambda: "the file of the stream has another content")
            expect(type(streamed) is class_, lambda: f"the file of the stream is a {type(streamed).__name__}")
        if recipe[1]:
            ctx.hit(recipe[0])
    finally:
        shutil.rmtree(folder)


def judge_template(case, ctx):
    name, filename = case
    class_ = CLASSES[name]
    folder = tempfile.mkdtemp(prefix="p16")
    try:
        class_.save_template_to_file(os.path.join(folder, filename))
        wanted = filename
        if class_.extension and not filename.endswith("." + class_.extension):
            wanted = f"{filename}.{class_.extension}"
        found = os.listdir(folder)
        expect(found == [wanted], lambda: f"the template of {name} is saved as {found}, not {wanted}")
        template = class_.stream_template()
        expect(template.tell() == 0, "a template is not at its start")
        saved = class_.from_file(os.path.join(folder, wanted))
        if not issubclass(class_, files.XLSXFile):
            expect(saved.getvalue() == template.getvalue(), "the template saved is another one")
        else:
            import openpyxl
            cells = [[[c.value for c in row] for row in openpyxl.load_workbook(f).active.iter_rows()]
                     for f in (saved, template)]
            expect(cells[0] == cells[1] and cells[0][0][0], lambda: f"templates {cells}")
        ctx.hit(name)
    finally:
        shutil.rmtree(folder)


def judge_archive(case, ctx):
    """ An archive holds the bytes of the files, under their names. """
    recipes = [(c, v, f"f{i}.{n or 'x'}", p) for i, (c, v, n, p) in enumerate(case)]
    built = [build(r) for r in recipes]
    archive = io.BytesIO()
    with zipfile.ZipFile(archive, "w") as zipped:
        for file in built:
            files.generate_archive(zipped, file)
    with zipfile.ZipFile(archive) as zipped:
        expect(zipped.namelist() == [r[2] for r in recipes], lambda: f"archive of {zipped.namelist()}")
        for recipe in recipes:
            raw = recipe[1].encode("utf-8") if CLASSES[recipe[0]] in TEXTS else recipe[1]
            expect(zipped.read(recipe[2]) == raw, lambda: f"{recipe[2]} holds {zipped.read(recipe[2])!r}")
    for recipe, file in zip(recipes, built):
        is_file(file, recipe, "the file archived")
    with zipfile.ZipFile(io.BytesIO(), "w") as zipped:
        for wrong in ("text", b"bytes", None, io.StringIO("a")):
            try:
                files.generate_archive(zipped, wrong)
            except ValueError:
                continue
            expect(False, f"{wrong!r} taken as a file")
    if any(r[1] for r in recipes):
        ctx.hit(f"{len(recipes)} files")


QUICK = 4
SUBS = [
    Sub("copy", st.tuples(contents(), st.integers(0, 3)), judge_copy, quick=800, rule="a file with a content"),
    Sub("equal", pairs(), judge_equal, quick=800, rule="always"),
    Sub("disk", st.tuples(contents(), st.sampled_from(["a.txt", "noext", "data.bin", "é.csv"])), judge_disk, quick=600,
        rule="a file with a content"),
    Sub("template", st.tuples(st.sampled_from(sorted(CLASSES)),
                              st.sampled_from(["a", "a.txt", "a.csv", "a.xlsx", "b.c", "xlsx", "mycsv", "a.md"])),
        judge_template, quick=88, rule="always"),
    Sub("archive", st.lists(contents(), min_size=1, max_size=4), judge_archive, quick=300, rule="some content"),
]
