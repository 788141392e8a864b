""" P27: statistics and distances. """
import math
from fractions import Fraction

import numpy as npy
from hypothesis import strategies as st

import rows
from engine import Sub, expect
from dessia_common.datatools import metrics
from dessia_common.datatools.dataset import Dataset

NUMBER = st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3, 1, 4, 7.25]) | \
    st.floats(-1e4, 1e4, allow_nan=False).map(lambda f: round(f, 4))
VECTOR = st.integers(1, 8).flatmap(lambda n: st.tuples(*[st.lists(NUMBER, min_size=n, max_size=n)] * 2))


def near(found, wanted, scale, what):
    expect(isinstance(found, (int, float)) and abs(found - wanted) <= 1e-9 * (1 + scale),
           lambda: f"{what} is {found!r}, not {wanted}")


def exact_mean(values):
    return sum(map(Fraction, values)) / len(values)


def exact_covariance(first, second, lost=0):
    mean_1, mean_2 = exact_mean(first), exact_mean(second)
    return sum((Fraction(a) - mean_1) * (Fraction(b) - mean_2) for a, b in zip(first, second)) / (len(first) - lost)


def power(values, p):
    """ Minkowski norm. """
    return float(sum(abs(Fraction(v)) ** p for v in values)) ** (1 / p)


def judge_vectors(case, ctx):
    first, second, p = case
    scale = max(map(abs, first + second))
    square = scale ** 2 + 1
    near(metrics.mean(first), float(exact_mean(first)), scale, "mean")
    variance = float(exact_covariance(first, first))
    near(metrics.variance(first), variance, square, "variance")
    near(metrics.std(first), math.sqrt(variance), scale, "standard deviation")
    near(metrics.covariance(first, second), float(exact_covariance(first, second)), square, "covariance")
    total = scale * len(first)
    difference = [Fraction(a) - Fraction(b) for a, b in zip(first, second)]
    for norm, distance, wanted, what in (
            (metrics.l1_norm, metrics.manhattan_distance, lambda v: power(v, 1), "l1"),
            (metrics.l2_norm, metrics.euclidian_distance, lambda v: power(v, 2), "l2"),
            (metrics.inf_norm, None, lambda v: float(max(map(abs, v))), "infinite"),
            (lambda v: metrics.lp_norm(v, p), lambda a, b: metrics.minkowski_distance(a, b, p),
             lambda v: power(v, p), f"l{p}"),
            (metrics.lp_norm, metrics.minkowski_distance, lambda v: power(v, 2), "default lp")):
        near(norm(first), wanted(first), total, f"{what} norm")
        if distance is not None:
            near(distance(first, second), wanted(difference), total, f"{what} distance")
            near(distance(second, first), wanted(difference), total, f"{what} distance the other way")
    weights = [1 + abs(v) for v in first]
    wanted = float(sum(d * d / Fraction(w) for d, w in zip(difference, weights))) ** 0.5
    found = float(metrics.mahalanobis_distance(first, second, npy.diag(weights).tolist()))
    near(found, wanted, total, "Mahalanobis distance")
    if len(set(first)) > 1 and first != second:
        ctx.hit(f"p={p}")


def judge_offset(case, ctx):
    """ Values far from zero with regard to their spread: the spread must not be lost. """
    first, second, offset, other = case
    wanted = {"variance": exact_covariance(first, first), "covariance": exact_covariance(first, second)}
    moved, others = [offset + v for v in first], [other + v for v in second]
    found = {"variance": metrics.variance(moved), "covariance": metrics.covariance(moved, others)}
    for what, value in found.items():
        expect(abs(value - float(wanted[what])) <= 1e-3 * (1 + 100), lambda: f"{what} is {value}, not {float(wanted[what])}")
    near(metrics.std(moved) ** 2, float(wanted["variance"]), 1e6, "deviation")
    data = Dataset([rows.Row(a, b, 0.) for a, b in zip(moved, others)])
    expect(all(abs(f - float(w)) <= 0.1 for f, w in zip(data.variances(), (wanted["variance"], exact_covariance(second, second)))),
           lambda: f"variances {data.variances()}")
    if len(first) > 1:
        lost = float(exact_covariance(first, second, 1))
        expect(abs(data.covariance_matrix()[0][1] - lost) <= 0.1, lambda: f"covariance {data.covariance_matrix()[0][1]}, not {lost}")
    if len(set(first)) > 1:
        ctx.hit(f"offset {offset:g}")


def judge_lengths(case, ctx):
    first, extra = case
    try:
        metrics.covariance(first, first + extra)
    except ValueError:
        ctx.hit()
        return
    expect(False, "covariance of vectors of different lengths")


METHODS = {"minkowski": (2, {}), "cityblock": (1, {}), "euclidean": (2, {}), "minkowski 3": (3, {"p": 3}),
           "minkowski 1": (1, {"p": 1}), "chebyshev": (None, {}), None: (2, {})}


def judge_table(case, ctx):
    recipe, method = case
    objects = rows.build(recipe)
    common = rows.features(objects)
    if not common:
        return
    table = rows.table(objects)
    data = Dataset(list(objects), name="data")
    columns = list(zip(*table))
    scale = max(abs(v) for row in table for v in row)
    square = scale ** 2 + 1
    for found, wanted, size, what in (
            (data.mean(), [float(exact_mean(c)) for c in columns], scale, "means"),
            (data.variances(), [float(exact_covariance(c, c)) for c in columns], square, "variances"),
            (data.standard_deviation(), [math.sqrt(exact_covariance(c, c)) for c in columns], scale, "deviations")):
        expect(len(found) == len(wanted), lambda: f"{len(found)} {what} for {len(wanted)} features")
        for f, w in zip(found, wanted):
            near(f, w, size, what)
    if len(table) > 1:
        matrix = data.covariance_matrix()
        expect(isinstance(matrix, list) and len(matrix) == len(columns) and
               all(isinstance(line, list) and len(line) == len(columns) for line in matrix),
               lambda: f"covariance matrix {matrix} of {len(columns)} features")
        for i, first in enumerate(columns):
            for j, second in enumerate(columns):
                near(matrix[i][j], float(exact_covariance(first, second, 1)), square, f"covariance {i}, {j}")
    p, arguments = METHODS[method]
    distances = data.distance_matrix(**arguments) if method is None else \
        data.distance_matrix(method.split()[0], **arguments)
    expect(len(distances) == len(table) and all(len(line) == len(table) for line in distances),
           lambda: f"distances {distances} of {len(table)} objects")
    for i, first in enumerate(table):
        for j, second in enumerate(table):
            gaps = [Fraction(a) - Fraction(b) for a, b in zip(first, second)]
            wanted = float(max(map(abs, gaps))) if p is None else power(gaps, p)
            near(distances[i][j], wanted, scale, f"distance {i}, {j}")
    expect(data.matrix == table, "the table changed")
    if len({tuple(r) for r in table}) > 1:
        ctx.hit(f"{method}")


def judge_singular(case, ctx):
    """ The squared singular values of the centred and reduced table are the eigenvalues of the correlations. """
    objects = rows.build(case)
    table = npy.array(rows.table(objects), dtype=float)
    if table.ndim != 2 or table.shape[1] == 0 or len(table) < 3:
        return
    deviations = table.std(axis=0)
    if max(deviations) < 1e-6 or any(0 < d < 1e-6 * (1 + abs(table).max()) for d in deviations):
        return
    reduced = (table - table.mean(axis=0)) / npy.where(deviations == 0, 1, deviations)
    reduced[:, deviations == 0] = 0
    eigenvalues = npy.clip(npy.linalg.eigvalsh(reduced.T @ reduced), 0, None)[::-1]
    wanted = npy.sqrt(eigenvalues)
    wanted = (wanted / wanted.sum())[:min(table.shape)]
    values, points = Dataset(objects).singular_values()
    expect(len(values) == len(wanted) == len(points), lambda: f"{len(values)} singular values of {table.shape}")
    expect(abs(sum(values) - 1) < 1e-9, lambda: f"sum {sum(values)}")
    expect(all(a >= b - 1e-12 for a, b in zip(values, values[1:])), lambda: f"not in order: {values}")
    for i, (found, awaited, point) in enumerate(zip(values, wanted, points)):
        expect(abs(found - awaited) < 1e-5, lambda: f"singular value {i} is {found}, not {awaited}")
        expect(sorted(point.values()) == sorted([i + 1, found if found != 0 else 1e-16]), f"point {point}")
    ctx.hit("constant feature" if 0 in deviations else "varying")


def judge_mahalanobis(case, ctx):
    """ Also along linked directions, whose covariances cannot be inverted. """
    directions, first, second = case
    basis = npy.array(directions, dtype=float)
    covariance = basis.T @ basis
    rank = npy.linalg.matrix_rank(covariance)
    weights = npy.array([a - b for a, b in zip(first, second)], dtype=float)
    one, two = npy.array(first, dtype=float) @ covariance, npy.array(second, dtype=float) @ covariance
    # Inside of the span, any solution of covariance @ z = one - two gives the distance
    wanted = math.sqrt(max(weights @ covariance @ weights, 0))
    found = float(metrics.mahalanobis_distance(one.tolist(), two.tolist(), covariance.tolist()))
    expect(abs(found - wanted) <= 1e-6 * (1 + wanted), lambda: f"Mahalanobis distance {found}, not {wanted}, of {one} "
                                                               f"and {two} for {covariance.tolist()}")
    ctx.hit("singular" if rank < len(covariance) else "regular")


DIRECTIONS = st.integers(1, 3).flatmap(lambda n: st.tuples(
    st.lists(st.lists(st.integers(-3, 3), min_size=n, max_size=n), min_size=1, max_size=3),
    *[st.lists(st.integers(-3, 3), min_size=n, max_size=n)] * 2))
QUICK = 3
SUBS = [
    Sub("mahalanobis", DIRECTIONS, judge_mahalanobis, quick=300, thorough=5000, rule="every case"),
    Sub("vectors", st.tuples(VECTOR, st.sampled_from([1, 2, 3, 4, 64])).map(lambda c: (*c[0], c[1])), judge_vectors,
        quick=1500, shards=2, rule="a varying vector and another one"),
    Sub("offset", st.integers(1, 6).flatmap(lambda n: st.tuples(
        *[st.lists(st.integers(-10, 10), min_size=n, max_size=n)] * 2, *[st.sampled_from([1e8, 1e9, -1e9, 3e8])] * 2)),
        judge_offset, quick=400, rule="a vector that varies"),
    Sub("lengths", st.tuples(st.lists(NUMBER, min_size=1, max_size=3), st.lists(NUMBER, min_size=1, max_size=3)),
        judge_lengths, quick=30, rule="different lengths"),
    Sub("table", st.tuples(rows.rows(min_size=1, max_size=7), st.sampled_from(list(METHODS))), judge_table,
        quick=1500, shards=3, rule="at least two different rows"),
    Sub("singular", rows.rows(min_size=3, max_size=8, numbers=rows.GRID), judge_singular, quick=600, shards=2,
        rule="a feature varies"),
]
