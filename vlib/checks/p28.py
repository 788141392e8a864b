""" P28: Pareto-efficient points. """
import itertools

from hypothesis import strategies as st

import rows
from engine import Sub, expect
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset

SMALL = st.integers(0, 4)
SHAPES = ["same", "float", "tenths", "offset", "small", "fine", "large"]
SHAPE = {"same": lambda v: v, "float": float, "tenths": lambda v: v * 0.1, "offset": lambda v: 1e6 + v,
         "small": lambda v: -v * 1e-3, "fine": lambda v: 1e9 + v * 1e-3, "large": lambda v: v * 1e8 - 3}
ONE = st.tuples(SMALL, SMALL, SMALL)
POINTS = st.tuples(st.lists(ONE, min_size=1, max_size=10), st.lists(st.sampled_from(SHAPES), min_size=3, max_size=3))
ATTRIBUTES = st.lists(st.sampled_from(["x", "y", "z", "total"]), min_size=1, max_size=3, unique=True)


def dominated(point, by):
    return all(b <= a for a, b in zip(point, by)) and any(b < a for a, b in zip(point, by))


def efficient(costs):
    return [not any(dominated(c, other) for other in costs) for c in costs]


def values(case):
    points, shapes = case
    return [[SHAPE[s](v) for s, v in zip(shapes, p)] for p in points]


def judge_indexes(case, ctx):
    shaped, dimension = case
    costs = [c[:dimension] for c in values(shaped)]
    wanted = efficient(costs)
    found = Dataset.pareto_indexes(costs)
    expect([bool(f) for f in found] == wanted, lambda: f"{costs}: {found}, not {wanted}")
    if not all(wanted) and dimension > 1:
        ctx.hit(f"{dimension} costs")
    if len({tuple(c) for c in costs}) < len(costs):
        ctx.label("equal points")


def peel(objects, attributes):
    """ Sheets one after the other. """
    left = list(objects)
    while True:
        kept = efficient([[rows.READ[a](o) for a in attributes] for o in left])
        sheet = [o for o, k in zip(left, kept) if k]
        left = [o for o, k in zip(left, kept) if not k]
        yield sheet, left


def same(found, wanted, what):
    expect(len(found) == len(wanted) and all(a is b for a, b in zip(found, wanted)),
           lambda: f"{what}: {len(found)} objects, not the {len(wanted)} expected in order")


def judge_sheets(case, ctx):
    kind, shaped, attributes, count = case
    if shaped[1][0] != shaped[1][1]:
        attributes = [a for a in attributes if a != "total"] or ["x"]
    objects = [rows.CLASSES[kind](*v) for v in values(shaped)]
    data = Dataset(list(objects), name="data")
    peeled = peel(objects, attributes)
    wanted = [next(peeled) for _ in range(count)]
    points = data.pareto_points(attributes)
    same(points.dessia_objects, wanted[0][0], "Pareto points")
    sheets, others = data.pareto_sheets(attributes, count)
    expect(len(sheets) == count, lambda: f"{len(sheets)} sheets, not {count}")
    for i, (sheet, (objects_, _)) in enumerate(zip(sheets, wanted)):
        same(sheet.dessia_objects, objects_, f"sheet {i}")
    same(others.dessia_objects, wanted[-1][1], "points out of the sheets")
    for part in [*sheets, others]:
        same(list(itertools.islice(iter(part), len(objects) + 1)), part.dessia_objects, "iterating")
    clusters = ClusteredDataset.from_pareto_sheets(data, attributes, count)
    awaited = [(o, i) for i, (sheet, _) in enumerate(wanted) for o in sheet] + [(o, count) for o in wanted[-1][1]]
    same(clusters.dessia_objects, [o for o, _ in awaited], "clusters")
    expect(list(clusters.labels) == [i for _, i in awaited], lambda: f"labels {clusters.labels}")
    same(data.dessia_objects, objects, "the data set afterwards")
    if len(attributes) > 1 and wanted[0][1]:
        ctx.hit(f"{len(attributes)} costs")
    if not wanted[-1][1]:
        ctx.label("all points in sheets")


QUICK = 3
SUBS = [
    Sub("indexes", st.tuples(POINTS, st.integers(1, 3)), judge_indexes, quick=2500, shards=2,
        rule="several costs, some points dominated"),
    Sub("sheets", st.tuples(st.integers(0, 3), POINTS, ATTRIBUTES, st.integers(1, 4)), judge_sheets, quick=1500,
        shards=3, rule="several costs, some points dominated"),
]
