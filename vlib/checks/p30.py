""" P30: optimization, and the parameters it works on. """
import random
import warnings

import cma
import numpy as np
from hypothesis import strategies as st

from engine import Sub, expect
from dessia_common.core import DessiaObject, Parameter, ParameterSet
from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue, InstantiatingModelOptimizer

warnings.simplefilter("ignore")
_fmin = cma.fmin


def _seeded_fmin(*args, **kwargs):
    """ CMA seeds itself with the time: runs could not be replayed. """
    if isinstance(kwargs.get("options"), dict):
        kwargs["options"] = {"seed": 1234, **kwargs["options"]}
    return _fmin(*args, **kwargs)


cma.fmin = _seeded_fmin

SMALL = st.integers(-40, 40).map(lambda i: i / 4)
WIDTHS = st.sampled_from([0.25, 1., 2., 5., 100.])


class Bowl(DessiaObject):
    """ Its cost is that of a bowl. """

    def __init__(self, values, name=""):
        self.__dict__.update(values)
        self.values = values
        super().__init__(name=name)


class BowlOptimizer(InstantiatingModelOptimizer):
    """ The bottom of the bowl is given. """

    def __init__(self, fixed_parameters, optimization_bounds, bottom, scales, name=""):
        self.bottom = bottom
        self.scales = scales
        self.asked = []
        super().__init__(fixed_parameters, optimization_bounds, name=name)

    def instantiate_model(self, attributes_values):
        self.asked.append(dict(attributes_values))
        return Bowl(dict(attributes_values))

    def objective_from_model(self, model, clearance=0.003):
        return float(sum(self.scales[k] * (model.values[k] - b) ** 2 for k, b in self.bottom.items()))


@st.composite
def problems(draw, smallest=1):
    number = draw(st.integers(smallest, 3))
    bounds, bottom, scales = [], {}, {}
    for i in range(number):
        low, width = draw(SMALL), draw(WIDTHS)
        bounds.append((f"x{i}", low, low + width))
        bottom[f"x{i}"] = low + width * draw(st.sampled_from([0., .1, .25, .5, .75, .9, 1., -.5, 1.5]))
        scales[f"x{i}"] = draw(st.sampled_from([.5, 1., 3.])) / width ** 2
    fixed = [(f"y{i}", draw(SMALL)) for i in range(draw(st.integers(0, 2)))]
    for name, value in fixed:
        bottom[name] = value + draw(st.sampled_from([0., 0., 1.]))
        scales[name] = 1.
    order = draw(st.permutations(bounds))
    return list(order), fixed, bottom, scales, draw(st.integers(0, 10**6)), [draw(st.integers(0, 8)) / 8 for _ in range(number)]


def make(case):
    bounds, fixed, bottom, scales, seed, _ = case
    np.random.seed(seed)
    return BowlOptimizer([FixedAttributeValue(n, v) for n, v in fixed], [BoundedAttributeValue(*b) for b in bounds],
                         bottom, scales)


def cost(case, values):
    return sum(case[3][k] * (values[k] - b) ** 2 for k, b in case[2].items())


def best(case):
    values = {name: min(max(case[2][name], low), high) for name, low, high in case[0]}
    values.update(dict(case[1]))
    return cost(case, values)


def judge_answer(case, model, value, what):
    expect(set(model.values) == {b[0] for b in case[0]} | {f[0] for f in case[1]}, lambda: f"{what}: model of {model.values}")
    for name, low, high in case[0]:
        slack = 1e-9 * max(1, abs(low), abs(high))
        expect(low - slack <= model.values[name] <= high + slack,
               lambda: f"{what}: {name} is {model.values[name]}, not in [{low}, {high}]")
    for name, wanted in case[1]:
        expect(model.values[name] == wanted, lambda: f"{what}: {name} is {model.values[name]}, fixed to {wanted}")
    found = cost(case, model.values)
    expect(abs(found - value) <= 1e-9 * max(1, abs(found)), lambda: f"{what}: the model costs {found}, {value} is told")


def judge_vectors(case, ctx):
    optimizer = make(case)
    vector = case[5]
    real = optimizer.dimensionless_vector_to_vector(vector)
    for (name, low, high), bound, part, found in zip(case[0], optimizer.optimization_bounds, vector, real):
        expect(abs(found - (low + part * (high - low))) < 1e-9 * max(1, abs(found)), lambda: f"{part} of {name} is {found}")
        expect(abs(bound.dimensionless_value(found) - part) < 1e-9, lambda: f"{found} is {bound.dimensionless_value(found)}")
    values = optimizer.vector_to_attributes_values(real)
    expect(values == {**dict(case[1]), **{b[0]: r for b, r in zip(case[0], real)}}, lambda: f"values {values}")
    found = optimizer.objective_from_dimensionless_vector(vector)
    expect(abs(found - cost(case, values)) < 1e-9 * max(1, found), "cost of a vector")
    expect(optimizer.scipy_bounds() == [(0, 1)] * len(vector) and
           optimizer.cma_bounds() == [[0] * len(vector), [1] * len(vector)], "bounds")
    for (name, low, high), bound in zip(case[0], optimizer.optimization_bounds):
        for part in (-.5, 1.25):  # Also out of the bounds
            real = bound.dimensionless_to_value(part)
            expect(abs(real - (low + part * (high - low))) < 1e-9 * max(1, abs(real)), lambda: f"{part} of {name} is {real}")
            expect(abs(bound.dimensionless_value(real) - part) < 1e-9,
                   lambda: f"{real} of {name} is {bound.dimensionless_value(real)}, not {part}")
    if len(vector) > 1:
        ctx.hit("vector")


def judge_gradient(case, ctx):
    start = case[5]
    for x0 in (start, None):
        optimizer = make(case)
        model, value = optimizer.optimize_gradient() if x0 is None else optimizer.optimize_gradient(x0=x0)
        judge_answer(case, model, value, f"gradient from {x0}")
        expect(value <= best(case) + 1e-4, lambda: f"gradient from {x0} ends at {value}, best is {best(case)}")
        if x0 is not None:
            first = {**dict(case[1]), **{n: l + p * (h - l) for (n, l, h), p in zip(case[0], x0)}}
            expect(value <= cost(case, first) + 1e-9 * max(1, cost(case, first)), "the start was better")
            near = all(abs(optimizer.asked[0][k] - v) < 1e-6 * max(1, abs(v)) for k, v in first.items())
            expect(near, lambda: f"the gradient starts from {optimizer.asked[0]}, not {first}")
    outside = any(not low <= case[2][n] <= high for n, low, high in case[0])
    ctx.hit("optimum on a bound" if outside else "optimum inside")


class Stubborn(BowlOptimizer):
    """ Both optimizations are known. """

    def optimize_cma(self):
        return self.ends["cma"]

    def optimize_gradient(self, method="L-BFGS-B", x0=None):
        self.given = (method, list(x0))
        return self.ends["gradient"]


def judge_combined(case, ctx):
    """ The best of both is kept, with its own model. """
    problem, first, second, method = case
    optimizer = make(problem)
    optimizer.__class__ = Stubborn
    parts = [p / 8 for p in first[1][:len(problem[0])]]
    values = {n: l + p * (h - l) for (n, l, h), p in zip(problem[0], parts)}
    one, two = Bowl({**values, **dict(problem[1])}), Bowl(dict(problem[1]))
    optimizer.ends = {"cma": (one, first[0]), "gradient": (two, second)}
    model, value = optimizer.optimize_cma_then_gradient() if method is None else \
        optimizer.optimize_cma_then_gradient(method=method)
    expect(value == min(first[0], second), lambda: f"{value} is told, for {first[0]} and {second}")
    expect(model is (one if first[0] < second else two) or first[0] == second and model in (one, two),
           lambda: "the model is the one of the worst end")
    expect(optimizer.given[0] == (method or "L-BFGS-B"), lambda: f"method {optimizer.given[0]}, not {method}")
    expect(all(abs(a - b) < 1e-9 for a, b in zip(optimizer.given[1], parts)) and len(optimizer.given[1]) == len(parts),
           lambda: f"the gradient starts from {optimizer.given[1]}, not {parts}")
    ctx.hit("CMA is better" if first[0] < second else "gradient is better" if second < first[0] else "same")


def judge_cma(case, ctx):
    alone = make(case)
    model, value = alone.optimize_cma()
    judge_answer(case, model, value, "CMA")
    expect(value <= max(.2, best(case) + .2), lambda: f"CMA ends at {value}, best is {best(case)}")
    optimizer = make(case)
    both, found = optimizer.optimize_cma_then_gradient()
    judge_answer(case, both, found, "CMA then gradient")
    expect(found <= value + 1e-9 * max(1, value), lambda: f"{found} after gradient, {value} before")
    expect(found <= best(case) + 1e-3, lambda: f"ends at {found}, best is {best(case)}")
    # The gradient starts where CMA ended: this place is asked once more than by CMA alone
    places = [[all(abs(asked[n] - model.values[n]) <= 1e-6 * (h - l) for n, l, h in case[0]) for asked in asks]
              for asks in (alone.asked, optimizer.asked)]
    expect(sum(places[1]) > sum(places[0]), lambda: f"the gradient does not start from {model.values}, where CMA ended")
    ctx.hit("CMA")


# --- Parameters ------------------------------------------------------------------------------------------------------

PARAMETERS = st.tuples(SMALL, WIDTHS, st.sampled_from([None, 1., 2.5, 360.]), SMALL, st.integers(-3, 3),
                       st.sampled_from([0., 0.001, -0.004, 0.5, -0.7, 0.04]), st.floats(0, 1), st.integers(0, 10**6))


def judge_parameter(case, ctx):
    low, width, period, value, turns, gap, part, seed = case
    parameter = Parameter(low, low + width, periodicity=period)
    random.seed(seed)
    drawn = parameter.random_value()
    expect(low <= drawn <= low + width, lambda: f"{drawn} is not in [{low}, {low + width}]")
    real = parameter.original_value(part)
    expect(low - 1e-9 <= real <= low + width + 1e-9, lambda: f"{part} is {real}")
    expect(abs(parameter.normalize(real) - part) < 1e-6, lambda: f"{part} comes back as {parameter.normalize(real)}")
    expect(parameter.normalize(low) == 0 and parameter.normalize(low + width) == 1, "bounds")
    other = value + gap + (turns * period if period else 0)
    for tol in (1e-2, 0.05):
        if abs(abs(gap) - tol) < 1e-9:
            continue
        distance = abs(gap)
        if period:
            distance = min(distance % period, period - distance % period)
        found = parameter.are_values_equal(value, other, tol=tol)
        expect(found == (distance < tol), lambda: f"{value} and {other}, period {period}, within {tol}: {found}")
        expect(found == parameter.are_values_equal(other, value, tol=tol), "equality is not symmetric")
    if period and turns:
        ctx.hit("turns")


def judge_set(case, ctx):
    found = ParameterSet(case)
    expect([(p.name, p.lower_bound, p.upper_bound) for p in found.parameters] ==
           [(k, min(v), max(v)) for k, v in case.items()], "parameters of a set")
    expect(set(found.means) == set(case) and all(abs(found.means[k] - np.mean(v)) < 1e-9 for k, v in case.items()),
           lambda: f"means {found.means}")
    if len(case) > 1:
        ctx.hit("set")


QUICK = 4
SUBS = [
    Sub("vectors", problems(), judge_vectors, quick=300, thorough=5000, rule="two parameters or more"),
    Sub("gradient", problems(), judge_gradient, quick=200, thorough=5000, shards=2, rule="all"),
    Sub("combined", st.tuples(problems(), st.tuples(SMALL, st.lists(st.integers(0, 8), min_size=3, max_size=3)), SMALL,
                              st.sampled_from([None, "L-BFGS-B", "TNC", "Powell"])), judge_combined, quick=200,
        thorough=4000, rule="all"),
    Sub("CMA", problems(smallest=2), judge_cma, quick=48, thorough=800, shards=6, rule="all"),
    Sub("parameters", PARAMETERS, judge_parameter, quick=500, thorough=10000, rule="a periodic parameter and several turns"),
    Sub("sets", st.dictionaries(st.sampled_from(["a", "b", "c"]), st.lists(SMALL, min_size=1, max_size=4), max_size=3),
        judge_set, quick=150, thorough=2000, rule="two parameters or more"),
]
