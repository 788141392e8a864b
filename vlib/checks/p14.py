""" P14: Excel workbooks, and the breakdown they rely on. """
import io
import os
import shutil
import tempfile

import openpyxl
from hypothesis import strategies as st

import vexcel
from engine import Sub, expect
from dessia_common.breakdown import breakdown
from dessia_common.core import DessiaObject
from dessia_common.excel_reader import ExcelReader
from dessia_common.exports import XLSXWriter
from dessia_common.files import BinaryFile

FLOATS = st.one_of(st.integers(-3, 3).map(float), st.integers(-10**7, 10**7).map(lambda i: i / 1000),
                   st.floats(-100, 100).map(lambda f: round(f, 6)))
INTS = st.one_of(st.integers(-2, 2), st.integers(-10**12, 10**12))
TEXTS = st.one_of(st.text(alphabet="abcXYZ 019é€.,;'\"#*-[](){}=!|/", min_size=1, max_size=8),
                  st.sampled_from(["12", "1.5", "True", "None", "[1, 2]", "=1+1", "List of 2 items", "'a'", "a.b", "(3,)", "1e3"]))
NAMES = st.one_of(st.just(""), TEXTS)


@st.composite
def spots(draw):
    return ("Spot", draw(FLOATS), draw(INTS), draw(TEXTS), draw(st.booleans()), draw(NAMES))


def strokes(spot):
    return st.tuples(st.just("Stroke"), spot, spot, st.lists(FLOATS, max_size=3), st.one_of(st.none(), spot), NAMES)


@st.composite
def machines(draw):
    pool = draw(st.lists(spots(), min_size=1, max_size=4))
    spot = st.sampled_from(pool)
    stroke_pool = draw(st.lists(strokes(spot), min_size=1, max_size=3))
    stroke = st.sampled_from(stroke_pool)
    holder = None
    if draw(st.integers(0, 3)):
        screws = draw(st.lists(st.tuples(FLOATS, st.one_of(st.none(), spot)), max_size=4, unique_by=lambda i: i[0]))
        washers = draw(st.lists(st.tuples(FLOATS, st.one_of(st.none(), stroke)), max_size=4, unique_by=lambda i: i[0]))
        keys = draw(st.lists(st.sampled_from(["a", "b", "List a", "key é", "12", "Dict of"]), min_size=len(washers),
                             max_size=len(washers), unique=True))
        holder = ("Holder", [("Screw", *s, draw(NAMES)) for s in screws],
                  {k: ("Washer", *w, draw(NAMES)) for k, w in zip(keys, washers)},
                  draw(st.lists(TEXTS, max_size=3)), draw(st.one_of(st.none(), stroke)), draw(NAMES))
    knots = [None]
    for _ in range(draw(st.integers(0, 4))):
        knots.append(("Knot", draw(st.integers(0, 9)), draw(st.sampled_from(knots)), draw(st.sampled_from(knots)),
                      draw(st.one_of(st.none(), spot)), draw(NAMES)))
    other = draw(st.one_of(st.none(), st.integers(-5, 5), FLOATS, st.booleans(), st.lists(st.integers(0, 3), max_size=3),
                           st.sampled_from(["word", "other words"])))
    return ("Machine", draw(spot), draw(stroke), holder, draw(spot), other, knots[-1], draw(NAMES))


KITS = st.tuples(st.just("Kit"), st.lists(FLOATS, max_size=3, unique=True).map(lambda l: [("Gasket", g, "") for g in l]),
                 spots(), NAMES)
MAINS = st.one_of(machines(), machines(), KITS, spots(), spots().flatmap(lambda s: strokes(st.one_of(st.just(s), spots()))))


def build(recipe, share, memo=None):
    """ Objects of a recipe. Equal recipes are the same object when share is set. """
    memo = {} if memo is None else memo
    if isinstance(recipe, tuple) and recipe and isinstance(recipe[0], str) and hasattr(vexcel, recipe[0]):
        key = repr(recipe)
        if share and key in memo:
            return memo[key]
        class_ = getattr(vexcel, recipe[0])
        args = [build(r, share, memo) for r in recipe[1:]]
        if recipe[0] == "Kit":
            args[0] = set(args[0])
        object_ = class_(*args[:-1], name=args[-1])
        memo[key] = object_
        return object_
    if isinstance(recipe, list):
        return [build(r, share, memo) for r in recipe]
    if isinstance(recipe, dict):
        return {k: build(r, share, memo) for k, r in recipe.items()}
    return recipe


def tree(value):
    """ What an object is made of, without names. """
    if isinstance(value, DessiaObject):
        return (type(value).__name__, {k: tree(v) for k, v in value.__dict__.items() if not k.startswith("_") and k != "name"})
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [tree(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return ["set"] + sorted((tree(v) for v in value), key=repr)
    if isinstance(value, dict):
        return {k: tree(v) for k, v in value.items()}
    if isinstance(value, bool) or value is None or isinstance(value, str):
        return (type(value).__name__, value)
    if isinstance(value, (int, float)):
        return value + 0. if abs(value) < 1e9 else value
    return repr(value)


def named(value):
    """ Names with the trees that bear them. """
    if isinstance(value, DessiaObject):
        yield repr(tree(value)), value.name
        for attribute in value.__dict__.values():
            yield from named(attribute)
    elif isinstance(value, (list, tuple, set)):
        for item in value:
            yield from named(item)
    elif isinstance(value, dict):
        for item in value.values():
            yield from named(item)


def workbook_bytes(object_, how):
    if how == 0:
        stream = BinaryFile()
        object_.to_xlsx_stream(stream)
        return stream.getvalue()
    folder = tempfile.mkdtemp(prefix="p14")
    try:
        name = ["book", "book.xlsx", "bookxlsx", "a.b", "a.xlsx.old"][how % 5]
        path = os.path.join(folder, name)
        if how > 4:
            object_.to_xlsx(path)
        else:
            XLSXWriter(object_).save_to_file(path)
        wanted = name if name == "book.xlsx" else name + ".xlsx"
        expect(os.listdir(folder) == [wanted], lambda: f"files {os.listdir(folder)}, not {wanted}")
        found = DessiaObject.from_xlsx(os.path.join(folder, wanted))
        expect(tree(found) == tree(object_), lambda: f"read {tree(found)} from the file, written {tree(object_)}")
        with open(os.path.join(folder, wanted), "rb") as file:
            return file.read()
    finally:
        shutil.rmtree(folder)


def judge_round_trip(case, ctx):
    recipe, share, how = case
    object_ = build(recipe, share)
    before = tree(object_)
    raw = workbook_bytes(object_, how)
    expect(tree(object_) == before, "the object is changed by its export")
    stream = BinaryFile()
    stream.write(raw)
    stream.seek(0)
    found = DessiaObject.from_xlsx_stream(stream)
    expect(type(found) is type(object_), lambda: f"a {type(found)} is read")
    expect(tree(found) == before, lambda: f"read {tree(found)}, written {before}")
    if recipe[0] != "Kit" and not isinstance(getattr(object_, "other", None), float):
        expect(found == object_, "another object is read")
    names = {}
    for key, name in named(object_):
        names.setdefault(key, set()).add(name)
    for key, name in named(found):
        expect(name in names[key], lambda: f"{key} is named {name!r}, not {names[key]}")
    expect(found.name == object_.name, lambda: f"named {found.name!r} instead of {object_.name!r}")
    again = DessiaObject.from_xlsx_stream(io.BytesIO(raw))
    expect(tree(again) == before, "another object at the second reading")
    if recipe[0] == "Machine":
        ctx.hit("machine", "holder" if recipe[3] else "no holder", "knots" if recipe[6] else "no knot")


# --- What is written -------------------------------------------------------------------------------------------------

def sub_objects(value, path, found):
    """ Objects below a value (path, object), each time it is met. """
    if isinstance(value, DessiaObject):
        if path:
            found.append((path, value))
        for name, attribute in value.__dict__.items():
            if not name.startswith("_") and name != "name":
                sub_objects(attribute, path + (name,), found)
    elif isinstance(value, (list, tuple, set)):
        for i, item in enumerate(value):
            sub_objects(item, path + (str(i),), found)
    elif isinstance(value, dict):
        for key, item in value.items():
            sub_objects(item, path + (str(key),), found)
    return found


LEAVES = st.one_of(st.none(), FLOATS, INTS, st.booleans(), TEXTS, st.just(""), st.floats(-10, 10).map(lambda f: round(f, 7)))


@st.composite
def loose(draw):
    pool = draw(st.lists(spots(), min_size=1, max_size=3))
    pool.append(("Gasket", 1., "gasket"))
    items = st.one_of(LEAVES, st.sampled_from(pool))

    def payloads(inner):
        return st.one_of(st.lists(inner, max_size=3), st.lists(inner, max_size=3).map(lambda l: ("tuple", l)),
                         st.dictionaries(st.sampled_from(["k", "l", 3]), inner, max_size=3),
                         st.tuples(st.just("Loose"), inner, inner, NAMES))
    payload = st.recursive(items, payloads, max_leaves=8)
    more = st.one_of(payload, payload, st.lists(st.sampled_from(pool), max_size=3).map(lambda l: ("set", l)))
    return ("Loose", draw(payload), draw(more), draw(NAMES))


def build_loose(recipe):
    if isinstance(recipe, tuple) and recipe[0] == "tuple":
        return tuple(build_loose(r) for r in recipe[1])
    if isinstance(recipe, tuple) and recipe[0] == "set":
        return {build(r, False) for r in recipe[1]}
    if isinstance(recipe, tuple) and recipe[0] == "Loose":
        return vexcel.Loose(build_loose(recipe[1]), build_loose(recipe[2]), name=recipe[3])
    if isinstance(recipe, list):
        return [build_loose(r) for r in recipe]
    if isinstance(recipe, dict):
        return {k: build_loose(r) for k, r in recipe.items()}
    return build(recipe, False)


def target(cell):
    link = cell.hyperlink
    place = link.location or link.target
    sheet, _, address = place.lstrip("#").rpartition("!")
    return sheet.strip("'"), address


def judge_written(recipe, ctx):
    object_ = build_loose(recipe) if recipe[0] == "Loose" else build(recipe, False)
    met = sub_objects(object_, (), [])
    wanted = {}
    for path, sub in met:
        kind = wanted.setdefault(type(sub).__name__, [])
        for row in kind:
            if row[0] == sub:
                row[1].append(path)
                break
        else:
            kind.append((sub, [path]))
    # Breakdown
    parts = breakdown(object_)
    expect(set(parts) == set(wanted), lambda: f"classes {set(parts)}, expected {set(wanted)}")
    for kind, rows in wanted.items():
        expect(len(parts[kind]) == len(rows), lambda: f"{len(parts[kind])} {kind}, {len(rows)} expected")
        for sub, paths in rows:
            expect(sub in parts[kind], lambda: f"a {kind} is missing")
            texts = [".".join(p) for p in paths]
            depth = min(len(p.split(".")) for p in texts)
            shown = parts[kind][sub]
            expect(shown in texts, lambda: f"{shown} does not lead to the {kind} of {texts}")
            expect(len(shown.split(".")) == depth, lambda: f"{shown} is not the shortest of {texts}")
    # Workbook
    raw = workbook_bytes(object_, 0)
    book = openpyxl.load_workbook(io.BytesIO(raw))
    main = f"Object {type(object_).__name__}"
    expect(set(book.sheetnames) == {main} | set(wanted) and book.sheetnames[0] == main and
           len(book.sheetnames) == 1 + len(wanted), lambda: f"sheets {book.sheetnames}, expected {main}, {set(wanted)}")
    expect([book[main][a].value for a in ("A2", "B2")] == [type(object_).__module__, type(object_).__name__], "identity")
    expect((book[main]["C2"].value or "") == object_.name, "name of the object")
    places = {}
    for kind in wanted:
        sheet = book[kind]
        expect([sheet["A2"].value, sheet["B2"].value] == ["vexcel", kind], lambda: f"class of sheet {kind}")
        left = list(wanted[kind])
        for row in range(4, sheet.max_row + 1):
            text = sheet.cell(row, 1).value
            rows = [r for r in left if text in [".".join(p) for p in r[1]]]
            expect(len(rows) >= 1, lambda: f"row {row} of {kind} shows {text!r}")
            places[kind, row] = rows[0][0]
            left = [r for r in left if r is not rows[0]]
        expect(not left, lambda: f"sheet {kind} misses {[r[1] for r in left]}")

    def judge_row(sheet, row, sub):
        attributes = sorted(k for k in sub.__dict__ if not k.startswith("_") and k != "name")
        heads = [c.value for c in sheet[3]]
        expect(heads[1] == "name" and sorted(heads[2:]) == attributes, lambda: f"columns {heads} for {attributes}")
        expect((sheet.cell(row, 2).value or "") in {s.name for _, s in met + [((), object_)] if s is sub or s is not object_ and sub is not object_ and s == sub}, "name of a row")
        for column, head in enumerate(heads[2:], 3):
            value, cell = getattr(sub, head), sheet.cell(row, column)
            if isinstance(value, DessiaObject):
                expect(cell.hyperlink is not None, lambda: f"{head} of row {row} has no link")
                kind, address = target(cell)
                expect(address[0] == "A" and places.get((kind, int(address[1:]))) == value,
                       lambda: f"{head} of row {row} leads to {kind} {address}")
                expect(cell.value == book[kind][address].value, lambda: f"{head} of row {row} shows {cell.value!r}")
                continue
            if isinstance(value, (dict, list, set)) and cell.hyperlink is not None:
                first = list(value.values() if isinstance(value, dict) else value)
                kind, _ = target(cell)
                expect(kind in book.sheetnames and kind in {type(i).__name__ for i in first},
                       lambda: f"{head} leads to {target(cell)}")
            elif isinstance(value, (dict, list, set)) and value and len({type(i) for i in (
                    value.values() if isinstance(value, dict) else value)}) == 1:
                first = next(iter(value.values() if isinstance(value, dict) else value))
                expect(not isinstance(first, DessiaObject), lambda: f"{head} of row {row}: no link to the objects")
            elif not isinstance(value, (dict, list, set)):
                expect(cell.hyperlink is None, lambda: f"{head} has a link")
            if isinstance(value, bool) or value is None:
                expect(cell.value == str(value), lambda: f"{head} {value!r} shown as {cell.value!r}")
            elif isinstance(value, int):
                expect(int(cell.value) == value, lambda: f"{head} {value!r} shown as {cell.value!r}")
            elif isinstance(value, float):
                expect(cell.value == round(value, 6), lambda: f"{head} {value!r} shown as {cell.value!r}")
            elif isinstance(value, str):
                expect((cell.value or "") == value and cell.data_type != "f", lambda: f"{head} {value!r} shown as {cell.value!r}")
            elif isinstance(value, (dict, set)):
                expect(str(len(value)) in cell.value, lambda: f"{head} {value!r} shown as {cell.value!r}")
            elif isinstance(value, list):
                simple = all(isinstance(v, (int, float, str)) for v in value)
                expect(cell.value == str(value) if simple else str(len(value)) in cell.value,
                       lambda: f"{head} {value!r} shown as {cell.value!r}")
    judge_row(book[main], 4, object_)
    for (kind, row), sub in places.items():
        judge_row(book[kind], row, sub)
    if len(met) > 1:
        ctx.hit("sub-objects", *(["twice the same object"] if len(met) > sum(len(w) for w in wanted.values()) else []))


# --- Catalogs --------------------------------------------------------------------------------------------------------

@st.composite
def catalogs(draw):
    sheets = []
    for title in draw(st.lists(st.sampled_from(["Parts", "Others", "é x"]), min_size=1, max_size=3, unique=True)):
        class_ = draw(st.sampled_from(["Spot", "Gasket"]))
        attributes = draw(st.permutations({"Spot": ["x", "y", "label", "flag", "name"], "Gasket": ["size", "name"]}[class_]))
        drop = draw(st.integers(0, 5))
        attributes = list(attributes)[:len(attributes) - (drop if drop < 2 else 0)]
        if draw(st.integers(0, 9)) == 0:
            attributes.append(draw(st.sampled_from(attributes)))
        values = {"x": FLOATS, "y": INTS, "label": TEXTS.filter(lambda t: t[0] != "="), "flag": st.booleans(),
                  "name": TEXTS.filter(lambda t: t[0] != "="), "size": FLOATS}
        rows = [[draw(values[a]) for a in attributes] for _ in range(draw(st.integers(1, 4)))]
        sheets.append((title, class_, attributes, rows))
    return sheets


def judge_catalog(sheets, ctx):
    book = openpyxl.Workbook()
    book.remove(book.active)
    for title, class_, attributes, rows in sheets:
        sheet = book.create_sheet(title)
        sheet.append(["vexcel", class_])
        sheet.append(attributes)
        for row in rows:
            sheet.append(row)
    stream = io.BytesIO()
    book.save(stream)
    stream.seek(0)
    needed = {"Spot": {"x", "y"}, "Gasket": {"size"}}
    wrong = any(len(set(a)) != len(a) or needed[c] - set(a) for _, c, a, _ in sheets)
    reader = ExcelReader(stream)
    try:
        found = reader.read_catalog()
    except (ValueError, TypeError) as error:
        expect(wrong, lambda: f"catalog {sheets} is refused: {error!r}")
        ctx.hit("wrong catalog")
        return
    finally:
        reader.close()
    expect(not wrong, lambda: f"catalog {sheets} is accepted")
    expect(set(found) == {s[0] for s in sheets}, lambda: f"sheets {set(found)}")
    for title, class_, attributes, rows in sheets:
        expected = [getattr(vexcel, class_)(**dict(zip(attributes, row))) for row in rows]
        expect([tree(o) for o in found[title]] == [tree(o) for o in expected],
               lambda: f"{title} holds {[tree(o) for o in found[title]]}, expected {[tree(o) for o in expected]}")
        expect([o.name for o in found[title]] == [o.name for o in expected], lambda: f"names {[o.name for o in found[title]]}")
    ctx.hit(f"{len(sheets)} sheets")


SUBS = [
    Sub("round trip", st.tuples(MAINS, st.booleans(), st.sampled_from([0] * 8 + list(range(1, 10)))), judge_round_trip,
        quick=1200, thorough=20000, shards=6, rule="an object with objects"),
    Sub("what is written", st.one_of(loose(), machines()), judge_written, quick=1000, thorough=20000, shards=6,
        rule="two sub-objects or more"),
    Sub("catalogs", catalogs(), judge_catalog, quick=200, thorough=5000, shards=1, rule="all"),
]
