""" P26: through any history, a dataset is the list of its objects and the table of their features. """
from hypothesis import strategies as st

import rows
from engine import Sub, expect
from dessia_common.core import DessiaFilter, FiltersList
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset

TESTS = {">": lambda a, b: a > b, "<": lambda a, b: a < b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
         ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b}
BITS = st.lists(st.booleans(), min_size=1, max_size=6)
BOUND = st.none() | st.integers(-12, 12)
ACTION = st.one_of(
    st.tuples(st.just("read"), st.sampled_from(["matrix", "attributes", "all"])),
    st.tuples(st.just("sort"), st.integers(0, 5), st.booleans(), st.booleans()),
    st.tuples(st.just("slice"), BOUND, BOUND, st.sampled_from([None, 1, 2, -1, 3])),
    st.tuples(st.just("bools"), BITS),
    st.tuples(st.just("indices"), st.lists(st.integers(-20, 20), max_size=6)),
    st.tuples(st.just("filter"), st.lists(st.tuples(st.sampled_from(["x", "y", "z"]), st.sampled_from(list(TESTS)),
                                                    rows.GRID), min_size=1, max_size=2),
              st.sampled_from(["and", "or"])),
    st.tuples(st.just("add"), rows.rows(max_size=4), st.booleans(), st.booleans()),
    st.tuples(st.just("extend"), rows.rows(max_size=4), st.booleans()),
    st.tuples(st.just("back"), st.integers(0, 5)),
)
HISTORY = st.tuples(rows.rows(max_size=9), st.lists(ACTION, min_size=1, max_size=7))


def is_list(data, objects, when):
    expect(type(data) is Dataset, lambda: f"{when}: a {type(data).__name__}, not a data set")
    found = data.dessia_objects
    expect(len(found) == len(objects) and all(a is b for a, b in zip(found, objects)),
           lambda: f"{when}: {len(found)} objects, not the {len(objects)} expected in order")
    expect(len(data) == len(objects), lambda: f"{when}: length {len(data)}, not {len(objects)}")


def is_table(data, objects, when):
    """ Every reading of the data set. """
    is_list(data, objects, when)
    common = list(data.common_attributes)
    awaited = rows.features(objects)
    if len(set(map(type, objects))) > 1:  # in the order of any of the classes
        expect(sorted(common) == sorted(awaited), lambda: f"{when}: common attributes {common}, not {awaited}")
    else:
        expect(common == awaited, lambda: f"{when}: common attributes {common}, not {awaited}")
    wanted = [[rows.READ[f](o) for f in common] for o in objects]
    matrix = data.matrix
    expect([list(r) for r in matrix] == wanted, lambda: f"{when}: matrix {matrix}, not {wanted}")
    seen = []
    for obj in data:
        seen.append(obj)
        if len(seen) > len(objects):
            break
    expect(len(seen) == len(objects) and all(a is b for a, b in zip(seen, objects)),
           lambda: f"{when}: iterating gives {len(seen)} objects or other ones")
    for i, obj in enumerate(objects):
        expect(data[i] is obj and data[i - len(objects)] is obj, lambda: f"{when}: item {i} is another object")
    for j, attribute in enumerate(common):
        column = [row[j] for row in wanted]
        expect(data.column_values(j) == column, lambda: f"{when}: column {j} is {data.column_values(j)}")
        expect(data.attribute_values(attribute) == column,
               lambda: f"{when}: values of {attribute} are {data.attribute_values(attribute)}, not {column}")
    if objects and common:
        for names in (common[::-1], common[:1] * 2):
            found = data.sub_matrix(names)
            expect(found == [[rows.READ[n](o) for n in names] for o in objects],
                   lambda: f"{when}: sub matrix of {names} is {found}")


def outside(data, size, when):
    for index in (size, -size - 1):
        try:
            found = data[index]
        except IndexError:
            continue
        expect(False, f"{when}: item {index} of {size} is {found!r}")


def read(data, what):
    if what in ("matrix", "all"):
        data.matrix
    if what in ("attributes", "all"):
        data.common_attributes


def judge(case, ctx):
    recipe, actions = case
    objects = rows.build(recipe)
    data = Dataset(list(objects), name="start")
    known = [(data, objects)]
    cached = False
    for action in actions:
        name = action[0]
        when = f"after {name}"
        if name == "read":
            read(data, action[1])
            cached = True
        elif name == "back":
            data, objects = known[action[1] % len(known)]
        elif name == "sort":
            common = rows.features(objects)
            if not common:
                continue
            attribute = common[action[1] % len(common)]
            data.sort(list(data.common_attributes).index(attribute) if action[2] else attribute, action[3])
            keys = [rows.READ[attribute](o) for o in data.dessia_objects]
            expect(keys == sorted(keys, reverse=not action[3]), lambda: f"sorted by {attribute}: {keys}")
            expect(sorted(map(id, data.dessia_objects)) == sorted(map(id, objects)), "sorting changed the objects")
            known = [(d, o) for d, o in known if d is not data]
            objects = list(data.dessia_objects)
            known.append((data, objects))
            if len(objects) > 2 and cached:
                ctx.hit("sorted table")
        elif name in ("slice", "bools", "indices", "filter"):
            size = len(objects)
            if name == "slice":
                key = slice(*action[1:])
                picked = objects[key]
            elif name == "bools":
                key = (action[1] * size)[:size]
                picked = [o for o, k in zip(objects, key) if k]
            elif name == "indices":
                key = [i % (2 * size) - size for i in action[1]] if size else []
                picked = [o for i, o in enumerate(objects) if i in {k % size for k in key}]  # in their order
            else:
                filters = [DessiaFilter(*spec) for spec in action[1]]
                combine = all if action[2] == "and" else any
                picked = [o for o in objects if combine(TESTS[op](rows.READ[a](o), b) for a, op, b in action[1])]
            result = data.filtering(FiltersList(filters, action[2])) if name == "filter" else data[key]
            is_list(result, picked, when)
            if picked:
                expect(result.name == data.name, f"{when}: the name changed")
            if cached and 0 < len(picked) < size:
                ctx.hit(f"{name} of a table")
            if len(set(map(type, picked))) < len(set(map(type, objects))):
                ctx.label("narrowed to one class")
            known.append((result, picked))
            data, objects = result, picked
        elif name in ("add", "extend"):
            others = rows.build(action[1])
            other = Dataset(list(others), name="other")
            if action[2]:
                read(other, "all")
            if name == "add":
                result = other + data if action[3] else data + other
                merged = others + objects if action[3] else objects + others
                known += [(other, others), (result, merged)]
            else:
                data.extend(other)
                known = [(d, o) for d, o in known if d is not data]
                result, merged = data, objects + others
                known += [(other, others), (result, merged)]
            is_list(result, merged, when)
            if action[2] and cached and others and objects:
                ctx.hit(f"{name} of tables" + (" of other features" if rows.features(others) != rows.features(objects)
                                               else ""))
            data, objects = result, merged
        is_list(data, objects, when)
    for data, objects in known:
        is_table(data, objects, "in the end")
        outside(data, len(objects), "in the end")


def judge_refused(case, ctx):
    """ Only data sets are added to data sets. """
    recipe, side, by = case
    objects = rows.build(recipe)
    data, clustered = Dataset(list(objects)), ClusteredDataset(list(objects), [0] * len(objects))
    first, second = [(data, clustered), (clustered, data), (clustered, clustered)][side]
    before = first.__dict__.copy()
    try:
        found = first.extend(second) if by else first + second
    except TypeError:
        expect(first.__dict__ == before, "refused, but changed")
        ctx.hit()
        return
    expect(False, f"adding a {type(second).__name__} to a {type(first).__name__} gave {type(found).__name__}")


def judge_keys(case, ctx):
    """ Keys which pick nothing sure are refused, and change nothing. """
    recipe, kind, number = case
    objects = rows.build(recipe)
    size = len(objects)
    data = Dataset(list(objects), name="picked")
    if number % 2:
        read(data, "all")
    keys = {"long": [True] * (size + 1 + number), "short": [False] * max(size - 1 - number, 0),
            "above": [0] * bool(size) + [size + number], "below": [-size - 1 - number], "text": "name", "texts": ["x"],
            "float": float(number), "floats": [0.0] * size, "tuple": tuple(range(size)), "none": None}
    key = keys[kind]
    if key == []:
        expect(list(data[key].dessia_objects) == [], "no key picks something")
        return
    try:
        found = data[key]
    except (ValueError, IndexError, NotImplementedError, TypeError):
        is_table(data, objects, "after a refused key")
        ctx.hit(kind)
        return
    expect(False, lambda: f"{key!r} of {size} objects picks {found!r}")


def shown(value, cell):
    text = str(value)
    if cell.endswith("..."):
        return len(text) > len(cell) - 3 and text.startswith(cell[:-3])
    return text == cell


def cells(line):
    expect(line.startswith("|") and line.endswith("|"), lambda: f"the line {line!r} is not one of a table")
    return [c.strip() for c in line[1:-1].split("|")]


def judge_shown(case, ctx):
    """ The text: every object, or the first and last five. """
    recipe, name, named = case
    objects = [rows.Named(*values) for _, values in recipe] if named else rows.build(recipe)
    data = Dataset(list(objects), name=name)
    lines = str(data).rstrip("\n").split("\n")
    common = rows.features(objects)
    expect(f"{len(objects)} samples, {len(common)} features" in lines[0], lambda: f"the title is {lines[0]!r}")
    if not objects:
        expect(len(lines) == 1, "an empty data set shows lines")
        return
    titles = common if named else ["name"] + common
    expect(cells(lines[1]) == [t.capitalize() for t in titles], lambda: f"columns {cells(lines[1])}")
    body = lines[3:]
    shown_objects = objects
    if len(objects) > 10:
        hidden = len(objects) - 10
        expect(len(body) == 11 and body[5].startswith(f"+ {hidden} undisplayed object"),
               lambda: f"{len(body)} lines for {len(objects)} objects: {body}")
        del body[5]
        shown_objects = objects[:5] + objects[-5:]
    expect(len(body) == len(shown_objects), lambda: f"{len(body)} lines for {len(shown_objects)} objects to show")
    for line, obj in zip(body, shown_objects):
        values = [rows.READ[f](obj) for f in titles]
        found = cells(line)
        expect(len(found) == len(values) and all(shown(v, c) for v, c in zip(values, found)),
               lambda: f"{line!r} for {values}")
    ctx.hit("all" if len(objects) <= 5 else "some" if len(objects) > 10 else "five to ten")


def judge_plots(case, ctx):
    """ The plots show every object, with its values and where it is. """
    recipe, path = case
    objects = rows.build(recipe)
    common = rows.features(objects)
    data = Dataset(list(objects), name="plotted")
    if len(common) < 2 or not objects:
        return
    for view in (data.plot_scatter_matrix, data.plot_parallel_plot):
        plot = view(reference_path=path)
        expect(len(plot.elements) == len(objects), lambda: f"{len(plot.elements)} points for {len(objects)} objects")
        for i, (sample, obj) in enumerate(zip(plot.elements, objects)):
            wanted = {f: rows.READ[f](obj) for f in common}
            found = {f: sample.values.get(f) for f in common}
            expect(found == wanted, lambda: f"point {i} has {found}, not {wanted}")
            expect(sample.reference_path == f"{path}/dessia_objects/{i}",
                   lambda: f"point {i} refers to {sample.reference_path}")
            expect(data._get_from_path("#" + sample.reference_path[len(path):]) is obj,
                   lambda: f"{sample.reference_path} is not the object of point {i}")
            expect(sample.name == obj.name if obj.name else bool(sample.name), "a point has the name of another object")
    axes = list(plot.attribute_names)
    expect(sorted(axes) == sorted(common), lambda: f"the axes are {axes}, for {common}")
    matrix = data.plot_scatter_matrix()
    expect(len(matrix.plots) == len(common) ** 2, lambda: f"{len(matrix.plots)} plots for {len(common)} features")
    for i, first in enumerate(common):
        for j, second in enumerate(common):
            small = matrix.plots[i * len(common) + j]
            if i != j:
                expect(set(small.attribute_names) == {list(data.common_attributes)[k] for k in (i, j)},
                       lambda: f"plot {i}, {j} of the matrix shows {small.attribute_names}")
            else:
                feature = list(data.common_attributes)[i]
                shown_ = {small.x_variable} if small.type_ == "histogram" else set(small.attribute_names)
                expect(shown_ == {feature}, lambda: f"a plot of the diagonal shows {shown_}, not {feature}")
                values = {rows.READ[feature](o) for o in objects}
                expect(len(values) == 1 or small.type_ == "histogram",
                       lambda: f"{len(values)} values shown as a {small.type_}")
    family = [i for f in matrix.points_sets for i in f.indices]
    expect(sorted(family) == list(range(len(objects))), lambda: f"families of points {family}")
    constant = [f for f in common if len({rows.READ[f](o) for o in objects}) == 1]
    ctx.hit("constant feature" if constant else "varying")


QUICK = 4
SUBS = [
    Sub("history", HISTORY, judge, quick=4000, shards=6, thorough=60000,
        rule="an operation on a data set whose table was already computed"),
    Sub("refused", st.tuples(rows.rows(max_size=4), st.integers(0, 2), st.booleans()), judge_refused, quick=60,
        rule="every case"),
    Sub("keys", st.tuples(rows.rows(max_size=5), st.sampled_from(["long", "short", "above", "below", "text", "texts",
                                                                 "float", "floats", "tuple", "none"]),
                         st.integers(0, 3)), judge_keys, quick=150, rule="a key which is refused"),
    Sub("shown", st.tuples(rows.rows(max_size=14), st.sampled_from(["data", "an other name"]),
                           st.sampled_from([False, False, True])), judge_shown, quick=600,
        shards=2, rule="at least one object"),
    Sub("plotted", st.tuples(rows.rows(min_size=1, max_size=8), st.sampled_from(["#", "#/outputs/3"])), judge_plots,
        quick=800, shards=2, rule="at least two features"),
]
