""" P08: a filter keeps exactly the elements that satisfy it, in order. """
import itertools

from hypothesis import strategies as st

import vmodels
from engine import Sub, expect
from dessia_common.core import DessiaFilter, FiltersList
from dessia_common.datatools.dataset import Dataset
from dessia_common.workflow.blocks import Filter
from dessia_common.workflow.core import Workflow

TESTS = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b,
         "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
WORDS = {"gt": ">", "lt": "<", "ge": ">=", "gte": ">=", "le": "<=", "lte": "<=", "eq": "==", "ne": "!="}
READ = {"value": lambda o: o.first.value if isinstance(o, vmodels.Branch) else o.value,
        "first/value": lambda o: o.first.value, "first/count": lambda o: o.first.count,
        "children/0/value": lambda o: o.children[0].value, "children/1/count": lambda o: o.children[1].count,
        "mapping/k/value": lambda o: o.mapping["k"].value, "pair/1": lambda o: o.pair[1]}
NUMBERS = st.sampled_from([-2.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3, 1, 0, -1])
FILTERS = st.tuples(st.sampled_from(list(READ)[1:]), st.sampled_from(list(TESTS) + list(WORDS)), NUMBERS)
ROWS = st.lists(st.tuples(NUMBERS, st.integers(-1, 3), NUMBERS, NUMBERS), min_size=3, max_size=12) | st.just([])
OPERATORS = ("and", "or", "xor")


def elements(rows):
    objects = []
    for value, count, other, third in rows:
        leaves = [vmodels.Leaf(v, c, "", True) for v, c in ((value, count), (other, count + 1), (third, 0))]
        objects.append(vmodels.Branch(leaves[0], leaves[1:] + leaves[:1], {"k": leaves[2]}, (leaves[1], count - 1)))
    return objects


def kept(filters, logic, obj):
    answers = [TESTS[WORDS.get(op, op)](READ[path](obj), bound) for path, op, bound in filters]
    if logic == "and":
        return all(answers)
    if logic == "or":
        return any(answers)
    return answers.count(True) % 2 == 1


def same(found, wanted, what):
    expect(len(found) == len(wanted) and all(a is b for a, b in zip(found, wanted)),
           lambda: f"{what} keeps {len(found)} elements, not the {len(wanted)} that satisfy it, in order")


def judge_single(case, ctx):
    rows, spec = case
    objects = elements(rows)
    wanted = [kept([spec], "and", o) for o in objects]
    filter_ = DessiaFilter(*spec)
    found = filter_.get_booleans_index(objects)
    expect([bool(f) for f in found] == wanted, lambda: f"{spec} answers {found}, not {wanted}")
    same(DessiaFilter.apply(objects, found), [o for o, w in zip(objects, wanted) if w], "the filter")
    indices = DessiaFilter.booleanlist_to_indexlist(found)
    expect(indices == [i for i, w in enumerate(wanted) if w], lambda: f"indices {indices} for {wanted}")
    again = DessiaFilter.dict_to_object(filter_.to_dict())
    expect([bool(f) for f in again.get_booleans_index(objects)] == wanted, "the reloaded filter answers otherwise")
    if 0 < sum(wanted) < len(wanted):
        ctx.hit(WORDS.get(spec[1], spec[1]))


def judge_combined(case, ctx):
    rows, specs, logic = case
    if logic == "xor":
        specs = specs[:2]
    objects = elements(rows)
    wanted = [o for o in objects if kept(specs, logic, o)]
    filters = [DessiaFilter(*spec) for spec in specs]
    combined = FiltersList(filters, logic)
    same(combined.apply(objects), wanted, f"'{logic}' of {specs}")
    same(FiltersList.from_filters_list(filters, logic).apply(objects), wanted, f"'{logic}' of {specs}")
    expect([bool(f) for f in combined.get_booleans_index(objects)] == [kept(specs, logic, o) for o in objects],
           "booleans are not the ones of the elements kept")
    same(FiltersList.dict_to_object(combined.to_dict()).apply(objects), wanted, "the reloaded list")
    for shuffled in itertools.islice(itertools.permutations(filters), 6):
        same(FiltersList(list(shuffled), logic).apply(objects), wanted, "the list in another order")
    expect(len(elements(rows)) == len(objects), "the list given was changed")
    if 0 < len(wanted) < len(objects):
        ctx.hit(logic, f"{len(specs)} filters")


def judge_block(case, ctx):
    """ Through the workflow block and the datasets. """
    rows, specs, logic = case
    if logic == "xor":
        specs = specs[:2]
    objects = elements(rows)
    wanted = [o for o in objects if kept(specs, logic, o)]
    filters = [DessiaFilter(*spec) for spec in specs]
    block = Filter(filters, logic)
    run = Workflow([block], [], block.outputs[0]).run({0: objects})
    same(run.output_value, wanted, f"the block with '{logic}' of {specs}")
    dataset = Dataset(list(objects), name="data").filtering(FiltersList(filters, logic))
    same(dataset.dessia_objects, wanted, f"the dataset filtered with '{logic}' of {specs}")
    if 0 < len(wanted) < len(objects):
        ctx.hit(logic)


def judge_told(case, ctx):
    """ The text of filters tells each of them; filters are equal when they ask the same. """
    specs, logic, name, changed = case
    filters = [DessiaFilter(*spec) for spec in specs]
    lines = str(FiltersList(filters, logic, name)).rstrip("\n").split("\n")
    expect(f"{len(filters)} filters" in lines[0] and f"'{logic}'" in lines[0] and name in lines[0],
           lambda: f"the title is {lines[0]!r}")
    expect(len(FiltersList(filters, logic)) == len(filters), "another number of filters")
    expect(len(lines) == 1 + min(len(filters), 15), lambda: f"{len(lines) - 1} lines for {len(filters)} filters")
    for line, (path, op, bound) in zip(lines[1:], specs):
        expect(line.replace("-", " ", 1).split() == [path, WORDS.get(op, op), str(bound)],
               lambda: f"{line!r} tells {(path, op, bound)}")
    for spec, filter_ in zip(specs, filters):
        expect(str(filter_).split() == [spec[0], WORDS.get(spec[1], spec[1]), str(spec[2])] or len(spec[0]) >= 10,
               lambda: f"{filter_} tells {spec}")
        for other in [*specs, changed]:
            twin = DessiaFilter(*other, name="twin")
            expect((filter_ == twin) == (spec == other), lambda: f"{spec} and {other} are taken as equal or not")
            expect(spec != other or hash(filter_) == hash(twin), "equal filters of different hashes")
    ctx.hit(f"{min(len(filters), 16)} filters")


def judge_booleans(case, ctx):
    columns, logic = case
    found = FiltersList.combine_booleans_lists(columns, logic)
    count = [sum(row) for row in zip(*columns)]
    if logic == "and":
        wanted = [c == len(columns) for c in count]
    elif logic == "or":
        wanted = [c > 0 for c in count]
    else:
        wanted = [c == 1 for c in count]
    expect(found == wanted, lambda: f"'{logic}' of {columns} is {found}")
    if True in wanted and False in wanted:
        ctx.hit(logic)


def judge_operator(case, ctx):
    """ Unknown operators are refused. """
    word = case
    if word in OPERATORS:
        return
    try:
        FiltersList.combine_booleans_lists([[True, False], [True, True]], word)
    except Exception:
        ctx.hit()
        return
    expect(False, f"'{word}' taken as a logical operator")


@st.composite
def boolean_columns(draw):
    logic = draw(st.sampled_from(OPERATORS))
    count = draw(st.integers(2, 2 if logic == "xor" else 5))
    size = draw(st.integers(0, 8))
    return [draw(st.lists(st.booleans(), min_size=size, max_size=size)) for _ in range(count)], logic


COMBINED = st.tuples(ROWS, st.lists(FILTERS, min_size=1, max_size=5), st.sampled_from(OPERATORS))
QUICK = 4
SUBS = [
    Sub("single", st.tuples(ROWS, FILTERS), judge_single, quick=1200, shards=2,
        rule="some elements kept, some not"),
    Sub("combined", COMBINED, judge_combined, quick=2000, shards=3, rule="some elements kept, some not"),
    Sub("through", COMBINED, judge_block, quick=700, shards=2, rule="some elements kept, some not"),
    Sub("told", st.tuples(st.lists(FILTERS, min_size=1, max_size=17), st.sampled_from(OPERATORS),
                          st.sampled_from(["told", "a name"]), FILTERS), judge_told, quick=150, rule="every case"),
    Sub("booleans", boolean_columns(), judge_booleans, quick=600, rule="both answers present"),
    Sub("operator", st.sampled_from(["nand", "", "AND", "not", "<", "nor", "xnor"]), judge_operator, quick=20,
        rule="a word which is not an operator"),
]
