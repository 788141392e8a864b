""" P06: a diff tells exactly what differs. """
from hypothesis import strategies as st

import objects as ob
from checks.p04 import value_pairs
from engine import Sub, expect
from dessia_common.utils.diff import diff

MISSING = object()


def at(value, path):
    try:
        return ob.resolve(value, path)
    except (LookupError, ValueError):
        return MISSING


def leaves(value, path="#"):
    """ Paths of everything compared. """
    return {p: v for p, v in ob.walk(value, path)}


def neutral(root, path):
    """ Whether the path goes through a field which equality ignores. """
    value = root
    for segment in map(ob.key, path.split("/")[1:]):
        if ob.is_object(value):
            if segment in ob.NEUTRAL.get(type(value).__name__, ()) + ("name",):
                return True
            value = ob.public_fields(value).get(segment, MISSING)
        elif isinstance(value, dict):
            value = value.get(segment, MISSING)
        elif isinstance(value, (list, tuple)) and segment.isdigit() and int(segment) < len(value):
            value = value[int(segment)]
        else:
            value = MISSING
        if value is MISSING:
            return False
    return False


def differing(a, b):
    """ Deepest paths where the two values differ, leaving aside what equality ignores. """
    def go(x, y, path):
        if ob.normal(x, names=False) == ob.normal(y, names=False):
            return
        if ob.is_object(x) and type(x) is type(y):
            fx, fy = ob.public_fields(x), ob.public_fields(y)
            skip = ob.NEUTRAL.get(type(x).__name__, ()) + ("name",)
            for key in fx:
                if key not in skip:
                    yield from go(fx[key], fy[key], f"{path}/{key}")
        elif isinstance(x, dict) and isinstance(y, dict):
            for key in list(x) + [k for k in y if k not in x]:
                if key not in x or key not in y:
                    yield f"{path}/{ob.segment(key)}"
                else:
                    yield from go(x[key], y[key], f"{path}/{ob.segment(key)}")
        elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
            for i, (u, v) in enumerate(zip(x, y)):
                yield from go(u, v, f"{path}/{i}")
        else:
            yield path
    return list(go(a, b, "#"))


def check(a, b, result):
    same = ob.normal(a, names=False) == ob.normal(b, names=False)
    expect(result.is_empty() == same, lambda: f"diff is {'empty' if result.is_empty() else 'not empty'} ({result!r}) "
           f"for {'equal' if same else 'different'} data ({ob.first_difference(a, b, names=False)})")
    expected = differing(a, b)
    reported = []
    for entry in list(result.different_values) + list(result.invalid_types):
        va, vb = at(a, entry.path), at(b, entry.path)
        expect(va is not MISSING and vb is not MISSING, lambda: f"no value at reported path {entry.path}")
        expect(ob.normal(va, names=False) != ob.normal(vb, names=False), lambda: f"values do not differ at {entry.path}")
        expect(ob.normal(entry.value1) == ob.normal(va) and ob.normal(entry.value2) == ob.normal(vb),
               lambda: f"at {entry.path}, values {entry.value1!r} / {entry.value2!r} instead of {va!r} / {vb!r}")
        expect(entry.path in expected, lambda: f"{entry.path} is not the deepest differing path: {expected}")
        reported.append(entry.path)
    for entry in result.missing_attributes:
        va, vb = at(a, entry.path), at(b, entry.path)
        expect((va is MISSING) != (vb is MISSING), lambda: f"{entry.path} is not missing on one side only")
        expect(entry.missing_in_first_object == (va is MISSING), lambda: f"{entry.path}: wrong missing side")
        reported.append(entry.path)
    expect(sorted(reported) == sorted(expected), lambda: f"reported paths {reported}, instead of {expected}")
    text = repr(result)
    for path in reported:
        expect(path in text, f"{path} is not in the printed diff")


def judge_objects(case, ctx):
    first, second = case
    a, b = ob.build(first)[-1], ob.build(second)[-1]
    result = a._data_diff(b)
    check(a, b, result)
    check(b, a, diff(b, a))
    check(a, a, diff(a, a))
    if not result.is_empty():
        ctx.hit("different")


def judge_values(case, ctx):
    a, b = (ob.build_value(v, []) for v in case)
    check(a, b, diff(a, b))
    check(b, a, diff(b, a))
    if isinstance(a, (list, dict)) and ob.normal(a) != ob.normal(b):
        ctx.hit("different")


QUICK = 4
SUBS = [
    Sub("objects", ob.pairs(max_objects=5, mutations=3, keys=ob.ANY_KEYS), judge_objects, quick=2400, shards=4,
        rule="the diff is not empty"),
    Sub("values", value_pairs(), judge_values, quick=1500, shards=2, rule="containers with a difference"),
]
