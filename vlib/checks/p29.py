""" P29: clusters. """
import math

import numpy as npy
from hypothesis import strategies as st

import rows
from engine import Sub, expect
from dessia_common.core import DessiaFilter, FiltersList
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset

LABELS = st.sampled_from([[0], [0, 1], [0, 1, 2], [0, 1, -1], [2, 5, 11], [3, -1], list(range(13)), [100, 7, -1, 64],
                          [-1]])
BOUND = st.none() | st.integers(-12, 12)
ACTION = st.one_of(
    st.tuples(st.just("sort"), st.integers(0, 5), st.booleans(), st.booleans()),
    st.tuples(st.just("slice"), BOUND, BOUND, st.sampled_from([None, 1, 2, -1])),
    st.tuples(st.just("bools"), st.lists(st.booleans(), min_size=1, max_size=6)),
    st.tuples(st.just("indices"), st.lists(st.integers(-20, 20), max_size=8)),
    st.tuples(st.just("filter"), st.sampled_from(["x", "y"]), rows.GRID),
    st.tuples(st.just("read")),
    st.tuples(st.just("reload")),
)


@st.composite
def clustered(draw, kinds=range(len(rows.CLASSES)), min_size=0, max_size=12):
    recipe = draw(rows.rows(kinds, min_size, max_size))
    pool = draw(LABELS)
    return recipe, [draw(st.sampled_from(pool)) for _ in recipe]


def is_pairs(data, pairs, when):
    expect(type(data) is ClusteredDataset, lambda: f"{when}: a {type(data).__name__}")
    found = list(zip(data.dessia_objects, data.labels))
    expect(len(data.dessia_objects) == len(data.labels) == len(pairs), lambda: f"{when}: {len(found)} labelled objects, "
           f"{len(data.labels)} labels, for {len(pairs)}")
    expect(all(a is b and la == lb for (a, la), (b, lb) in zip(found, pairs)),
           lambda: f"{when}: labels {data.labels}, not {[l for _, l in pairs]}, or other objects")
    wanted = len({l for _, l in pairs} - {-1})
    expect(data.n_clusters == wanted, lambda: f"{when}: {data.n_clusters} clusters, not {wanted}")


def judge_history(case, ctx):
    (recipe, labels), actions = case
    pairs = list(zip(rows.build(recipe), labels))
    data = ClusteredDataset([o for o, _ in pairs], list(labels), name="data")
    for action in actions:
        name = action[0]
        size = len(pairs)
        objects = [o for o, _ in pairs]
        if name == "sort":
            common = rows.features(objects)
            if not common:
                continue
            attribute = common[action[1] % len(common)]
            data.sort(list(data.common_attributes).index(attribute) if action[2] else attribute, action[3])
            of = {id(o): l for o, l in pairs}
            keys = [rows.READ[attribute](o) for o in data.dessia_objects]
            expect(keys == sorted(keys, reverse=not action[3]), lambda: f"sorted by {attribute}: {keys}")
            expect(sorted(map(id, data.dessia_objects)) == sorted(map(id, objects)), "sorting changed the objects")
            pairs = [(o, of[id(o)]) for o in data.dessia_objects]
        elif name == "read":
            data.matrix
        elif name == "reload":
            again = ClusteredDataset.dict_to_object(data.to_dict())
            expect(list(again.labels) == [l for _, l in pairs], lambda: f"reloaded labels {again.labels}")
            expect(again.dessia_objects == objects, "reloaded objects differ")
        else:
            if name == "slice":
                key = slice(*action[1:])
                wanted = pairs[key]
            elif name == "bools":
                key = (action[1] * size)[:size]
                wanted = [p for p, k in zip(pairs, key) if k]
            elif name == "indices":
                key = list(dict.fromkeys(i % (2 * size) - size for i in action[1])) if size else []
                key = [k for n, k in enumerate(key) if k % size not in [j % size for j in key[:n]]] if size else []
                wanted = [p for i, p in enumerate(pairs) if i in {k % size for k in key}]
            else:
                wanted = [(o, l) for o, l in pairs if getattr(o, action[1]) > action[2]]
            if name == "filter":
                data = data.filtering(FiltersList([DessiaFilter(action[1], ">", action[2])], "and"))
            else:
                data = data[key]
            pairs = wanted
        if len({l for _, l in pairs}) > 1 and name != "read":
            ctx.hit(name)
        is_pairs(data, pairs, f"after {name}")
    if pairs:
        colors(data, pairs)


def colors(data, pairs):
    """ Every point has its label, and is in the family of points of its cluster. """
    if len(data.common_attributes) < 2:
        return
    plot = data.plot_scatter_matrix()
    found = [sample.values["Cluster Label"] for sample in plot.elements]
    expect(found == [l for _, l in pairs], lambda: f"points labelled {found}, not {[l for _, l in pairs]}")
    families = [f.indices for f in plot.points_sets]
    groups = {}
    for i, (_, label) in enumerate(pairs):
        groups.setdefault(label, []).append(i)
    expect(sorted(map(sorted, families)) == sorted(groups.values()), lambda: f"families {families}, not {groups}")
    shown = [line for line in str(data).split("\n")[3:] if line.startswith("|")]
    order = pairs if len(pairs) <= 10 else pairs[:5] + pairs[-5:]
    labels = [line[1:].split("|")[0].strip() for line in shown]
    expect(labels == [str(l) for _, l in order], lambda: f"the text shows the labels {labels}")


def distance(first, second, p):
    if p is None:
        return max(abs(a - b) for a, b in zip(first, second))
    return sum(abs(a - b) ** p for a, b in zip(first, second)) ** (1 / p)


def judge_sublists(case, ctx):
    (recipe, labels), (method, p) = case
    objects = rows.build(recipe)
    if not objects:
        return
    data = ClusteredDataset(list(objects), list(labels), name="data")
    groups = {}
    for obj, label in zip(objects, labels):
        groups.setdefault(label, []).append(obj)
    split = data.clustered_sublists()
    expect(sorted(split.labels) == sorted(groups), lambda: f"labels {split.labels}, not {sorted(groups)}")
    expect(len(split.dessia_objects) == len(groups), lambda: f"{len(split.dessia_objects)} sublists")
    for label, sublist in zip(split.labels, split.dessia_objects):
        found = sublist.dessia_objects
        expect(len(found) == len(groups[label]) and all(a is b for a, b in zip(found, groups[label])),
               lambda: f"cluster {label} holds other objects")
        tag = "outliers" if label == -1 else str(label)
        expect(sublist.name == f"data_{tag}", lambda: f"cluster {label} is named {sublist.name}")
    if not all(rows.features(g) for g in groups.values()):
        return
    arguments = {} if method is None else {"method": method, **({"p": p} if method == "minkowski" else {})}
    tables = [rows.table(groups[label]) for label in split.labels]
    means = [[sum(c) / len(c) for c in zip(*table)] for table in tables]
    scale = 1 + max(abs(v) for t in tables for r in t for v in r)
    for source in (data, split):
        found = source.mean_clusters()
        expect(len(found) == len(means) and all(
            len(f) == len(m) and all(abs(a - b) < 1e-9 * scale for a, b in zip(f, m)) for f, m in zip(found, means)),
            lambda: f"means {found}, not {means}")
        distances = source.cluster_distances(**arguments)
        wanted = [[distance(m, r, p) for r in t] for m, t in zip(means, tables)]
        expect([len(d) for d in distances] == [len(w) for w in wanted] and
               all(abs(a - b) < 1e-8 * scale for d, w in zip(distances, wanted) for a, b in zip(d, w)),
               lambda: f"distances {distances}, not {wanted}")
        centroids = source.cluster_real_centroids(**arguments)
        expect(len(centroids) == len(means), lambda: f"{len(centroids)} centroids of {len(means)} clusters")
        for centroid, label, gaps in zip(centroids, split.labels, wanted):
            place = [i for i, o in enumerate(groups[label]) if o is centroid]
            expect(len(place) == 1, lambda: f"the centroid of cluster {label} is not one of its objects")
            expect(gaps[place[0]] <= min(gaps) + 1e-8 * scale,
                   lambda: f"the centroid of cluster {label} is not the nearest to its mean")
    if len(groups) > 1:
        ctx.hit("outliers" if -1 in groups else "clusters", "many" if len(groups) > 10 else "few")


def judge_split_plots(case, ctx):
    """ A split data set shows all its objects in one plot, with their labels and where they are. """
    (recipe, labels), path = case
    objects = rows.build(recipe)
    common = rows.features(objects)
    groups = {}
    for obj, label in zip(objects, labels):
        groups.setdefault(label, []).append(obj)
    if len(common) < 2 or any(rows.features(g) != common for g in groups.values()):
        return
    split = ClusteredDataset(list(objects), list(labels), name="data").clustered_sublists()
    before = [list(s.dessia_objects) for s in split.dessia_objects]
    wanted = [(label, obj) for label, sublist in zip(split.labels, before) for obj in sublist]
    for view in (split.plot_scatter_matrix, split.plot_parallel_plot):
        plot = view(reference_path=path)
        expect(len(plot.elements) == len(wanted), lambda: f"{len(plot.elements)} points for {len(wanted)} objects")
        for sample, (label, obj) in zip(plot.elements, wanted):
            values = {f: rows.READ[f](obj) for f in common}
            expect({f: sample.values[f] for f in common} == values and sample.values["Cluster Label"] == label,
                   lambda: f"point {sample.values}, not {values} of cluster {label}")
            expect(sample.reference_path.startswith(path) and
                   split._get_from_path("#" + sample.reference_path[len(path):]) is obj,
                   lambda: f"{sample.reference_path} is not the object of the point")
    plot = split.plot_scatter_matrix()
    families = sorted(sorted(f.indices) for f in plot.points_sets)
    expected = sorted([i for i, (l, _) in enumerate(wanted) if l == label] for label in groups)
    expect(families == expected, lambda: f"families {families}, not {expected}")
    after = [s.dessia_objects for s in split.dessia_objects]
    expect([len(a) for a in after] == [len(b) for b in before] and
           all(a is b for one, two in zip(after, before) for a, b in zip(one, two)), "displaying changed the data sets")
    if len(groups) > 1:
        ctx.hit("several clusters")


@st.composite
def groups_(draw):
    """ Groups of points far from one another. """
    count = draw(st.integers(2, 4))
    signs = [draw(st.sampled_from([1, -1, 2])) for _ in range(3)]
    points = []
    for group in range(count):
        for _ in range(draw(st.integers(2, 4))):
            points.append((group, [s * 100 * group + draw(st.integers(-4, 4)) * 0.25 for s in signs]))
    points = draw(st.permutations(points))
    method = draw(st.sampled_from(["kmeans", "agglomerative", "threshold", "dbscan"]))
    return points, count, method, draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([0, 1, 5]))


def partition(labels):
    groups = {}
    for i, label in enumerate(labels):
        groups.setdefault(label, []).append(i)
    return sorted(groups.values())


def judge_found(case, ctx):
    points, count, method, scaling, as_list, kind = case
    objects = [rows.CLASSES[kind](*v, name=f"o{i}") for i, (_, v) in enumerate(points)]
    data = objects if as_list else Dataset(list(objects), name="data")
    table = npy.array(rows.table(objects), dtype=float)
    if scaling:
        deviations = table.std(axis=0)
        table = (table - table.mean(axis=0)) / npy.where(deviations == 0, 1, deviations)
    inside = max(distance(a, b, 2) for i, a in enumerate(table) for j, b in enumerate(table)
                 if points[i][0] == points[j][0])
    outside = min(distance(a, b, 2) for i, a in enumerate(table) for j, b in enumerate(table)
                  if points[i][0] != points[j][0])
    limit = (inside + outside) / 2
    prefix = "list_" if as_list else "from_"
    if method == "kmeans":
        arguments = {"n_clusters": count}
    elif method == "agglomerative":
        arguments = {"n_clusters": count}
    elif method == "threshold":
        arguments = {"n_clusters": None, "distance_threshold": limit, "linkage": "single"}
    else:
        arguments = {"eps": limit, "min_samples": 2}
    name = {"kmeans": "kmeans", "dbscan": "dbscan"}.get(method, "agglomerative_clustering")
    found = getattr(ClusteredDataset, prefix + name)(data, scaling=scaling, name="found", **arguments)
    same = len(found.dessia_objects) == len(objects) and all(a is b for a, b in zip(found.dessia_objects, objects))
    expect(same, "the objects are not the ones given, in order")
    expect(found.name == "found", "the name is lost")
    expect(partition(found.labels) == partition([g for g, _ in points]),
           lambda: f"{method}: labels {found.labels} for groups {[g for g, _ in points]}")
    expect(found.n_clusters == count, lambda: f"{found.n_clusters} clusters of {count} groups")
    ctx.hit(method, "scaled" if scaling else "as is")


@st.composite
def scattered(draw):
    points = draw(st.lists(st.tuples(*[st.integers(0, 6)] * 3), min_size=1, max_size=12))
    return points, draw(st.sampled_from([1.25, 1.5, 2.125, 3.2])), draw(st.integers(1, 4)), draw(st.sampled_from([1, 2])), \
        draw(st.booleans())


def judge_dbscan(case, ctx):
    """ Against the definition of density clustering. """
    points, eps, least, p, as_list = case
    objects = [rows.Row(*map(float, v)) for v in points]
    arguments = {"eps": eps, "min_samples": least, "mink_power": p, "metric": "minkowski"}
    found = ClusteredDataset.list_dbscan(objects, **arguments) if as_list else \
        ClusteredDataset.from_dbscan(Dataset(objects), **arguments)
    labels = found.labels
    near = [[j for j, b in enumerate(points) if distance(a, b, p) <= eps] for a in points]
    cores = [i for i, n in enumerate(near) if len(n) >= least]
    expect(len(labels) == len(points), lambda: f"{len(labels)} labels for {len(points)} points")
    for i, label in enumerate(labels):
        reached = {labels[j] for j in near[i] if j in cores}
        if i in cores:
            expect(label != -1 and reached == {label}, lambda: f"the dense point {i} and its neighbours: {labels}")
        else:
            expect(label in reached if reached else label == -1, lambda: f"the point {i}: {labels}")
    components = set()
    for start in cores:
        seen, todo = {start}, [start]
        while todo:
            for j in near[todo.pop()]:
                if j in cores and j not in seen:
                    seen.add(j)
                    todo.append(j)
        components.add(frozenset(seen))
    expect(found.n_clusters == len(components), lambda: f"{found.n_clusters} clusters, not {len(components)}")
    if components and -1 in labels:
        ctx.hit(f"{len(components)} clusters")


QUICK = 2
SUBS = [
    Sub("history", st.tuples(clustered(), st.lists(ACTION, min_size=1, max_size=5)), judge_history, quick=1800,
        shards=4, rule="several labels after an operation"),
    Sub("sublists", st.tuples(clustered(), st.sampled_from([(None, 2), ("minkowski", 3), ("cityblock", 1),
                                                            ("chebyshev", None), ("minkowski", 1)])),
        judge_sublists, quick=1500, shards=3, rule="several clusters"),
    Sub("split plots", st.tuples(clustered(kinds=[0, 0, 1], min_size=2, max_size=8), st.sampled_from(["#", "#/outputs/3"])),
        judge_split_plots, quick=300, rule="several clusters"),
    Sub("groups", groups_(), judge_found, quick=160, shards=4, rule="groups apart"),
    Sub("density", scattered(), judge_dbscan, quick=500, shards=2, rule="clusters and outliers"),
]
