""" P32: interpolation, factors and measures. """
import copy
import json
import math
import pickle

from hypothesis import strategies as st

from engine import Sub, expect
from dessia_common import measures
from dessia_common.serialization import deserialize, serialize
from dessia_common.utils.algebra import get_incomplete_factors, number2factor, number3factor
from dessia_common.utils.interpolation import interpolate_from_istep, istep_from_value_on_list

STEPS = st.one_of(st.integers(-20, 20).map(float), st.integers(-200, 200).map(lambda i: i / 8))


@st.composite
def lists(draw):
    points = draw(st.lists(STEPS, min_size=2, max_size=7))
    kind = draw(st.integers(0, 3))
    if kind == 1:
        points = sorted(points)
    elif kind == 2:
        points = sorted(points, reverse=True)
    i = draw(st.integers(0, len(points) - 2))
    value = draw(st.one_of(STEPS, st.sampled_from(points), st.floats(0, 1).map(
        lambda a: min(max(points[i] + a * (points[i + 1] - points[i]), min(points)), max(points)))))
    return points, value


def judge_index(case, ctx):
    points, value = case
    low, high = min(points), max(points)
    if low <= value <= high:
        for extrapolate in (False, True):
            found = istep_from_value_on_list(points, value, extrapolate=extrapolate)
            expect(0 <= found <= len(points) - 1, lambda: f"{value} is at {found} of {points}")
            again = interpolate_from_istep(points, found)
            expect(math.isclose(again, value, abs_tol=1e-9), lambda: f"{value} is told at {found} of {points}, where is {again}")
            before = [i for i in range(math.ceil(found - 1e-9)) if min(points[i:i + 2]) <= value <= max(points[i:i + 2])]
            expect(all(i >= math.floor(found - 1e-9) for i in before), lambda: f"{value} is met before {found} in {points}")
        if value not in points:
            place = min(math.floor(found), len(points) - 2)
            ctx.hit("decreasing" if points[place] > points[place + 1] else "increasing")
        return
    try:
        istep_from_value_on_list(points, value)
        refused = False
    except ValueError:
        refused = True
    expect(refused, lambda: f"{value} is not refused in {points}")
    found = istep_from_value_on_list(points, value, extrapolate=True)
    expect(found in (0, len(points) - 1), lambda: f"{value} is extrapolated at {found} of {points}")
    other = len(points) - 1 - found
    expect(abs(points[int(found)] - value) <= abs(points[int(other)] - value), lambda: f"{value}: {found} is not the closest end")
    ctx.label("outside")


class Vector:
    """ Something that can be interpolated. """

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __add__(self, other):
        return Vector(self.x + other.x, self.y + other.y)

    def __rmul__(self, factor):
        return Vector(factor * self.x, factor * self.y)


def judge_interpolation(case, ctx):
    points, part = case
    place = part * (len(points) - 1)
    found = interpolate_from_istep([Vector(*p) for p in points], place)
    i = min(int(place), len(points) - 1)
    if place == i:
        expect((found.x, found.y) == tuple(points[i]), lambda: f"{place} of {points} is {found.x}, {found.y}")
    else:
        for k, shown in enumerate((found.x, found.y)):
            expected = points[i][k] + (place - i) * (points[i + 1][k] - points[i][k])
            expect(math.isclose(shown, expected, abs_tol=1e-9), lambda: f"{place} of {points}: {shown}, not {expected}")
        ctx.hit("between")
    for wrong in (-0.5, len(points) - 0.5, len(points)):
        try:
            interpolate_from_istep([Vector(*p) for p in points], wrong)
            refused = False
        except ValueError:
            refused = True
        expect(refused, lambda: f"{wrong} is not refused")


NUMBERS = st.one_of(st.integers(0, 130), st.sampled_from([2**10, 3**6, 720, 997, 1009 * 2, 360, 46656]))


def judge_factors(number, ctx):
    divisors = [i for i in range(1, number + 1) if number % i == 0]
    pairs = number2factor(number)
    expect(sorted(pairs) == [(d, number // d) for d in divisors], lambda: f"{number}: pairs {pairs}")
    triples = number3factor(number)
    expected = sorted((a, b, number // (a * b)) for a in divisors for b in divisors if number % (a * b) == 0)
    expect(sorted(triples) == expected, lambda: f"{number}: triples {sorted(triples)}, expected {expected}")
    few = number3factor(number, complete=False)
    expect(len(few) == len({tuple(sorted(t)) for t in few}), lambda: f"{number}: {few} holds twice the same factors")
    expect({tuple(sorted(t)) for t in few} == {tuple(sorted(t)) for t in expected}, lambda: f"{number}: {few}")
    expect(all(a * b * c == number for a, b, c in few), lambda: f"{number}: {few}")
    if divisors:
        some = get_incomplete_factors(number, divisors[:3])
        expect({tuple(sorted(t)) for t in some} == {tuple(sorted(t)) for t in expected if t[0] in divisors[:3] and
                                                    t[1] in divisors[:3]}, lambda: f"{number} by {divisors[:3]}: {some}")
    if len(divisors) > 2:
        ctx.hit("several factors")


UNITS = {"Distance": "m", "Angle": "rad", "Torque": "Nm", "Stress": "Pa", "Time": "s", "Speed": "m/s", "RotationSpeed": "rad/s",
         "Acceleration": "m/s²", "Mass": "kg", "Force": "N", "Work": "N*m", "Power": "N*m/s"}
FLOATS = st.one_of(STEPS, st.floats(allow_nan=False, allow_infinity=False))


def judge_measure(case, ctx):
    kind, one, two = case
    class_ = getattr(measures, kind)
    first, second = class_(one), class_(two)
    expect(isinstance(first, float) and first == one and hash(first) == hash(one), "a measure is its number")
    expect(class_.si_unit == UNITS[kind] and str(first).startswith(kind) and str(first).endswith(UNITS[kind]),
           lambda: f"shown as {first}")
    shown = str(first)[len(kind):-len(UNITS[kind])].strip()
    expect(float(shown) == round(one, 6), lambda: f"{one!r} shown as {first}")
    expect(repr(first) == f"{kind}({one!r})", lambda: f"{one!r} has repr {first!r}")
    for what, call in [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b),
                       ("<", lambda a, b: a < b), ("==", lambda a, b: a == b)]:
        expect(call(first, second) == call(one, two), lambda: f"{one} {what} {two}")
    for what, again in [("dict", class_.dict_to_object(first.to_dict())),
                        ("json", measures.Measure.dict_to_object(json.loads(json.dumps(first.to_dict())))),
                        ("serialize", deserialize(json.loads(json.dumps(serialize(first))))),
                        ("copy", copy.deepcopy(first)), ("pickle", pickle.loads(pickle.dumps(first)))]:
        expect(type(again) is class_ and again == first, lambda: f"{first!r} comes back from {what} as {again!r}")
    ctx.hit(kind)


QUICK = 4
SUBS = [
    Sub("indices of values", lists(), judge_index, quick=1000, thorough=30000, rule="the value is between two others"),
    Sub("interpolation", st.tuples(st.lists(st.tuples(STEPS, STEPS), min_size=1, max_size=5), st.one_of(
        st.sampled_from([0., .5, 1.]), st.floats(0, 1))), judge_interpolation, quick=400, thorough=10000, rule="between two"),
    Sub("factors", NUMBERS, judge_factors, quick=140, thorough=300, rule="a number that is not prime"),
    Sub("measures", st.tuples(st.sampled_from(sorted(UNITS)), FLOATS, FLOATS), judge_measure, quick=500, thorough=10000,
        rule="all"),
]
