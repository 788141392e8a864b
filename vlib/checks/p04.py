""" P04: laws of equality and hash of objects. """
import numpy as npy
from hypothesis import strategies as st

import objects as ob
import vmodels
import vtwin
from engine import Sub, expect
from dessia_common.core import data_eq
from dessia_common.files import BinaryFile, StringFile


def judge_pair(case, ctx):
    first, second = case
    a, b = ob.build(first)[-1], ob.build(second)[-1]
    same = ob.normal(a, names=False) == ob.normal(b, names=False)
    for left, right in ((a, b), (b, a)):
        result = left == right
        expect(result is True or result is False, lambda: f"equality gives {result!r}")
        expect(result == same, lambda: f"objects are {'equal' if same else 'different'} in data "
               f"({ob.first_difference(a, b, names=False)}), but == says {result}")
        expect((left != right) == (not same), "!= is not the opposite of ==")
        expect(data_eq(left, right) == same, "data_eq disagrees with the data")
    expect(hash(a) == hash(a) and a == a, "not reflexive")
    if same:
        expect(hash(a) == hash(b), "equal objects with different hashes")
        expect(len({a, b}) == 1 and {a: 1}[b] == 1 and b in [a], "equal objects are not found in collections")
    else:
        expect(len({a, b}) == 2 and b not in [a], "different objects are merged in collections")
    ctx.label("same" if same else "different")
    if first != second:
        if not same and hash(a) == hash(b):
            ctx.label("collision")
        ctx.hit()


CHILD = type("Leaf", (vmodels.Leaf,), {"__module__": "vtwin"})


def judge_collision(case, ctx):
    """ Pairs built to have the same hash with other data, or the same data. """
    kind, values, i, new = case
    n = len(values)
    if kind == "middle":
        other = list(values)
        other[1 + i % (n - 2)] = new
        a, b = vmodels.Bag(values, [], {}, {}, ("", 0)), vmodels.Bag(other, [], {}, {}, ("", 0))
        same = other == values
    elif kind == "matrix":
        rows = [[0.0], values, [1.0]]
        other = [[0.0], values[:-1] + [new], [1.0]]
        a, b = vmodels.Bag([], rows, {}, {}, ("", 0)), vmodels.Bag([], other, {}, {}, ("", 0))
        same = rows == other
    elif kind == "dict":
        base = {f"k{j:02d}": v for j, v in enumerate(values)}
        other = dict(base)
        other[f"k{1 + i % (n - 2):02d}"] = new
        a, b = vmodels.Bag([], [], {}, base, ("", 0)), vmodels.Bag([], [], {}, other, ("", 0))
        same = base == other
    elif kind == "keys":
        base = {f"k{j:02d}": v for j, v in enumerate(values)}
        other = {(k if j != 1 else k + "b"): v for j, (k, v) in enumerate(base.items())}
        a, b = vmodels.Bag([], [], {}, base, ("", 0)), vmodels.Bag([], [], {}, other, ("", 0))
        same = False
    elif kind == "none":
        # As many keys, the values missing on each side being None.
        base = {f"k{j:02d}": v for j, v in enumerate(values[:i])}
        a, b = vmodels.Slot({**base, "x": None}), vmodels.Slot({**base, "y": None})
        same = False
    elif kind == "neutral":
        a, b = vmodels.Note("t", str(values)), vmodels.Note("t", str(new))
        same = True
    elif kind == "files":
        files = [StringFile("a.txt"), BinaryFile("a.txt")], [StringFile("a.txt" if i % 2 else "b.txt"), BinaryFile("a.txt")]
        for pair, number in zip(files, (values[0], new)):
            pair[0].write(str(number))
        a, b = vmodels.Slot(files[0]), vmodels.Slot(files[1])
        same = str(values[0]) == str(new) and bool(i % 2)
    elif kind == "twins":
        a, b = vmodels.Leaf(values[0], 1, "t", True), vtwin.Leaf(values[0], 1, "t", True)
        same = False
    elif kind == "child":
        # A child class of the same name, in another module.
        a, b = vmodels.Leaf(values[0], 1, "t", True), CHILD(values[0], 1, "t", True)
        same = False
    elif kind == "types":
        a, b = vmodels.Typed(vmodels.Leaf, ""), vmodels.Typed(vtwin.Leaf, "")
        same = False
    elif kind == "numpy":
        # A number held by numpy is that number, and nothing which is not a number.
        number = npy.float64(values[0]) if i % 2 else npy.int64(n)
        plain = number.item()
        others = [plain, str(plain), None, [plain], {"x": plain}, vmodels.Leaf(values[0], 1, "t", True), plain + 1]
        other = others[int(abs(new)) % len(others)]
        a, b = vmodels.Slot(number), vmodels.Slot(other)
        same = other is plain
        expect(bool(data_eq(number, other)) is same and bool(data_eq(other, number)) is same, f"data_eq({number!r}, {other!r})")
    elif kind == "heavy":
        other = list(values)
        other[i % n] = new
        a, b = vmodels.Special(1.0, values, "c"), vmodels.Special(1.0, other, "d")
        same = other == values
    elif kind == "order":
        base = {f"k{j:02d}": v for j, v in enumerate(values)}
        other = dict(reversed(list(base.items())))
        a, b = vmodels.Bag([], [], {}, base, ("", 0)), vmodels.Bag([], [], {}, other, ("", 0))
        same = True
    elif kind == "sub":
        leaves = [vmodels.Leaf(v, 1, "t", True) for v in values]
        others = list(leaves)
        others[1 + i % (n - 2)] = vmodels.Leaf(new, 1, "t", True)
        a, b = vmodels.Slot(leaves), vmodels.Slot(others)
        same = values[1 + i % (n - 2)] == new
    elif kind == "classes":
        # Same data in another class.
        a, b = vmodels.Leaf(values[0], 1, "t", True), vmodels.SLeaf(values[0], 1, "t", True)
        same = False
    else:
        # Exchanged values.
        a = vmodels.KwOnly(values[0], b=values[1])
        b = vmodels.KwOnly(values[1], b=values[0])
        same = values[0] == values[1]
    expect(data_eq(a, b) is same and data_eq(b, a) is same, lambda: f"{kind}: data_eq says {data_eq(a, b)}, not {same}")
    expect((a == b) is same and (b == a) is same, lambda: f"{kind}: == says {a == b} / {b == a}, data say {same}")
    if same:
        expect(hash(a) == hash(b), "equal objects with different hashes")
    if kind == "middle" or kind == "order":
        expect(hash(vmodels.Bag(list(values), [], {}, {}, ("", 0))) == hash(vmodels.Bag(tuple(values), [], {}, {}, ("", 0))),
               "sequences with the same content have other hashes")
    ctx.hit(kind, "same" if same else "different")


def judge_others(case, ctx):
    """ Comparison with anything gives a boolean, False for what is not an object of the class. """
    spec, other = case
    a = ob.build([spec])[-1]
    value = ob.build_value(other, [])
    expect((a == value) is False and (value == a) is False, f"object equal to {value!r}")
    expect((a != value) is True, "!= is not the opposite of ==")
    ctx.hit()


def judge_identity(case, ctx):
    """ Classes with identity equality. """
    value, items = case
    a, b = vmodels.Strict(value, list(items)), vmodels.Strict(value, list(items))
    expect(a == a and not a != a and hash(a) == hash(a), "not reflexive")
    expect(not a == b and a != b and len({a, b}) == 2, "two instances of an identity class are equal")
    expect(not (a == None) and not (a == 1), "identity object equal to something else")  # noqa
    h = hash(a)
    a.value = value + 1
    expect(hash(a) == h, "the hash of an identity object depends on its data")
    ctx.hit()


def deep(base):
    return st.one_of(base, st.lists(base, max_size=4).map(lambda v: ("L", v)),
                     st.lists(st.tuples(ob.KEYS, base), max_size=4, unique_by=lambda kv: kv[0]).map(lambda v: ("D", v)))


VALUES = deep(deep(ob.scalars()))


def judge_values(case, ctx):
    """ Data equality of bare values. """
    first, second = (ob.build_value(v, []) for v in case)
    same = ob.normal(first) == ob.normal(second)
    expect(data_eq(first, second) == same and data_eq(second, first) == same,
           lambda: f"data_eq({first!r}, {second!r}) is {data_eq(first, second)}/{data_eq(second, first)}")
    expect(data_eq(first, first), "not reflexive")
    if isinstance(first, list) and isinstance(second, list):
        expect(data_eq(tuple(first), first), "a tuple and a list of same content differ")
    ctx.label("same" if same else "different")
    if isinstance(first, (list, dict)):
        ctx.hit()


@st.composite
def value_pairs(draw):
    spec = ("Slot", {"payload": draw(VALUES)}, "")
    second = [spec]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        second = draw(ob.mutated(second))
    return spec[1]["payload"], second[0][1]["payload"]


KINDS = ["numpy", "none", "neutral", "files", "twins", "types", "child", "middle", "matrix", "dict", "keys", "heavy", "order", "sub", "classes", "exchange"]
NO_STRICT = [c for c in ob.SCHEMA if c != "Strict"]
QUICK = 3
SUBS = [
    Sub("pair", ob.pairs(max_objects=5, numpy=True, keys=ob.ANY_KEYS), judge_pair, quick=2500, shards=4,
        rule="the two recipes differ"),
    Sub("collision", st.tuples(st.sampled_from(KINDS), st.lists(ob.FLOATS, min_size=3, max_size=6), st.integers(0, 5),
                               ob.FLOATS), judge_collision, quick=1200, rule="every case"),
    Sub("others", st.tuples(ob.graphs(max_objects=1, classes=["Leaf", "Slot", "Bag", "KwOnly", "Special"]).map(
        lambda g: g[0]), VALUES), judge_others, quick=300, rule="every case"),
    Sub("identity", st.tuples(ob.FLOATS, st.lists(ob.FLOATS, max_size=3)), judge_identity, quick=100,
        rule="every case"),
    Sub("values", value_pairs(), judge_values, quick=1500, shards=2, rule="containers are compared"),
]
