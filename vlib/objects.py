"""
Recipes of object graphs.

A graph recipe is a list of specs (class name, {field: value recipe}, name). A value recipe is a literal, or a tagged
tuple: ("L", [..]) list, ("T", [..]) tuple, ("D", [(key, value), ..]) dict, ("R", i) the i-th object of the graph
(i is always lower than the index of the spec using it), ("M", class, float) measure, ("C", name) class,
("N", "f"|"i", value) numpy scalar. The last spec is the root.
"""
import numpy as npy
from hypothesis import strategies as st

import vmodels
from vmodels import CLASSES, MEASURES

SCHEMA = {
    "Leaf": {"value": "float", "count": "int", "label": "str", "flag": "bool"},
    "SLeaf": {"value": "float", "count": "int", "label": "str", "flag": "bool"},
    "Slot": {"payload": "any"},
    "SSlot": {"payload": "any"},
    "Branch": {"first": "obj", "children": "objs", "mapping": "objdict", "pair": "pair"},
    "SBranch": {"first": "obj", "children": "objs", "mapping": "objdict", "pair": "pair"},
    "Bag": {"numbers": "floats", "matrix": "matrix", "texts": "texts", "scores": "scores", "couple": "couple",
            "option": "opt"},
    "Quantity": {"length": "Distance", "mass": "Mass", "times": "Times"},
    "Typed": {"class_": "class", "text": "str"},
    "Special": {"base": "float", "heavy": "floats", "comment": "str"},
    "KwOnly": {"a": "float", "b": "float", "tags": "tags"},
    "Note": {"body": "str", "remark": "str"},
    "TwinLeaf": {"value": "float", "count": "int", "label": "str", "flag": "bool"},
    "TwinSlot": {"payload": "any", "option": "opt"},
    "TwinBag": {"couple": "couple", "content": "scores"},
    "Strict": {"value": "float", "items": "floats"},
}
# Fields declared as neutral for equality, beside the name.
NEUTRAL = {"Special": ("comment",), "Note": ("remark",)}
# Classes taking the same arguments.
ALIKE = [("Leaf", "SLeaf", "TwinLeaf"), ("Slot", "SSlot"), ("Branch", "SBranch")]
NEEDS_OBJECT = {"Branch", "SBranch"}

# Values on a coarse grid: two different ones are never within the library's float tolerance.
FLOATS = st.one_of(st.integers(-40, 40).map(lambda i: i / 8), st.sampled_from([0.0, 1.0, -1.0, 1e6, 12345.678, 1e-3]))
WILD_FLOATS = st.floats(allow_nan=False, allow_infinity=False)
INTS = st.one_of(st.integers(-3, 6), st.integers(-10 ** 9, 10 ** 9))
TEXTS = st.one_of(st.sampled_from(["", "a", "b", "ab", "ba", "x.y", "1.5", "#/a", "é", "None", "v 1.0", "a\nb", "$",
                                   "math.pi", "os.sep", "json.dumps", "ref"]),
                  st.text(alphabet="abcxyz0159 _-./#()[]{}'\"\\,:é\u4e2d\n", max_size=8))
KEYS = st.one_of(st.sampled_from(["a", "b", "c", "k1", "k2", "key", "name", "0", "1", "x y"]),
                 st.text(alphabet="abc019_ -", min_size=1, max_size=5))
# Any text is a key of a dictionary: those with slashes must be told apart in the paths of references.
ANY_KEYS = st.one_of(KEYS, st.sampled_from(["a/b", "a", "b", "a~1b", "a/", "/", "", "~", "~1", "#", "0/1"]))
NAMES = st.sampled_from(["", "n1", "n2", "Name 3"])
CLASS_NAMES = st.sampled_from(["Leaf", "SLeaf", "Branch", "Distance", "TwinLeaf"])


def _dict(keys, values, max_size=3):
    return st.lists(st.tuples(keys, values), max_size=max_size, unique_by=lambda kv: kv[0]).map(lambda kv: ("D", kv))


def _tuple(values, max_size=3):
    return st.lists(values, max_size=max_size).map(lambda v: ("T", v))


def _list(values, max_size=4, min_size=0):
    return st.lists(values, min_size=min_size, max_size=max_size).map(lambda v: ("L", v))


def scalars(floats=FLOATS, texts=TEXTS):
    """ JSON scalars (no boolean: 0 == False for the library's equality, as for Python's). """
    return st.one_of(st.none(), INTS, floats, texts)


@st.composite
def graphs(draw, max_objects=6, classes=None, floats=FLOATS, texts=TEXTS, keys=KEYS, numpy=False, root=None,
           names=NAMES, share=True):
    """ Recipe of an object graph. """
    allowed = sorted(classes or [c for c in SCHEMA if c != "Strict"])
    count = draw(st.integers(1, max_objects))
    specs = []
    for index in range(count):
        choices = [c for c in allowed if index > 0 or c not in NEEDS_OBJECT] or ["Leaf"]
        if index == count - 1 and index > 0:
            # Favour roots that hold the others.
            heavy = [c for c in choices if c in ("Branch", "SBranch", "Slot", "SSlot", "TwinSlot")]
            if root:
                choices = [root]
            elif heavy and draw(st.integers(0, 4)) > 0:
                choices = heavy
        class_name = draw(st.sampled_from(choices))
        fields = {}
        if index and draw(st.integers(0, 5)) == 0 and specs:
            # A twin: same data as an earlier object, but a distinct instance.
            twin = draw(st.integers(0, index - 1))
            if not (index == count - 1):
                specs.append((specs[twin][0], dict(specs[twin][1]), specs[twin][2]))
                continue
        refs = st.integers(0, index - 1).map(lambda i: ("R", i)) if index else st.nothing()
        for field, kind in SCHEMA[class_name].items():
            fields[field] = draw(_value(kind, index, refs, floats, texts, keys, numpy))
        specs.append((class_name, fields, draw(names)))
    return specs


def _value(kind, index, refs, floats, texts, keys, numpy):
    number = floats
    if numpy:
        number = st.one_of(floats, floats.map(lambda v: ("N", "f", v)))
    if kind == "float":
        return number
    if kind == "int":
        return st.one_of(INTS, st.integers(0, 9).map(lambda v: ("N", "i", v))) if numpy else INTS
    if kind == "str":
        return texts
    if kind == "bool":
        return st.booleans()
    if kind == "opt":
        return st.one_of(st.none(), floats)
    if kind == "floats":
        return _list(number)
    if kind == "matrix":
        return _list(_list(floats, 3), 3)
    if kind == "texts":
        return _dict(keys, texts)
    if kind == "scores":
        return _dict(keys, floats, 4)
    if kind == "couple":
        return st.tuples(texts, INTS).map(lambda v: ("T", list(v)))
    if kind == "tags":
        return st.one_of(st.none(), _list(texts, 3))
    if kind in MEASURES:
        return floats.map(lambda v: ("M", kind, v))
    if kind == "Times":
        return _list(floats.map(lambda v: ("M", "Time", v)), 3)
    if kind == "class":
        return CLASS_NAMES.map(lambda v: ("C", v))
    if kind == "obj":
        return refs
    if kind == "objs":
        return _list(refs, 4)
    if kind == "objdict":
        return _dict(keys, refs, 3)
    if kind == "pair":
        return st.tuples(refs, INTS).map(lambda v: ("T", list(v)))
    if kind == "any":
        base = scalars(floats, texts)
        if index:
            base = st.one_of(base, refs, refs)
        flat = st.one_of(base, _list(base, 3), _dict(keys, base, 3), _tuple(base, 3))
        deep = st.one_of(flat, flat, _list(flat, 2), _dict(keys, flat, 2), _tuple(flat, 2))
        return st.one_of(base, _list(deep, 4), _dict(keys, deep, 3), _tuple(deep, 3))
    raise KeyError(kind)


def build_value(recipe, objects):
    """ Build a value from its recipe. """
    if isinstance(recipe, tuple):
        tag = recipe[0]
        if tag == "L":
            return [build_value(v, objects) for v in recipe[1]]
        if tag == "T":
            return tuple(build_value(v, objects) for v in recipe[1])
        if tag == "D":
            return {k: build_value(v, objects) for k, v in recipe[1]}
        if tag == "R":
            return objects[recipe[1]]
        if tag == "M":
            return MEASURES[recipe[1]](recipe[2])
        if tag == "C":
            return {**CLASSES, **MEASURES}[recipe[1]]
        if tag == "N":
            return npy.float64(recipe[2]) if recipe[1] == "f" else npy.int64(recipe[2])
        raise KeyError(tag)
    return recipe


def build(specs):
    """ Build every object of the graph; the root is the last. """
    objects = []
    for class_name, fields, name in specs:
        kwargs = {field: build_value(recipe, objects) for field, recipe in fields.items()}
        objects.append(CLASSES[class_name](name=name, **kwargs))
    return objects


def public_fields(obj):
    """ Fields a user sees as data: the constructor's ones and the computed ones, without the private ones. """
    excluded = getattr(type(obj), "_non_serializable_attributes", [])
    return {k: v for k, v in vars(obj).items() if not k.startswith("_") and k not in excluded}


def is_object(value):
    return isinstance(value, vmodels.DessiaObject)


def normal(value, names=True, loose_numpy=True, _depth=0):
    """
    Canonical, hashable form of a value: an oracle for 'same data', independent from the library's equality.

    Sequences are compared by content (JSON has no tuple); numpy scalars are the number they hold.
    """
    if _depth > 60:
        raise RecursionError("normal: too deep")
    if value is None or isinstance(value, (bool, str)):
        return (type(value).__name__, value)
    if isinstance(value, type):
        return ("class", value.__module__, value.__name__)
    if isinstance(value, npy.integer):
        return ("int", int(value))
    if isinstance(value, int):
        return ("int", value)
    if isinstance(value, vmodels.Measure):
        return ("measure", type(value).__name__, float(value))
    if isinstance(value, (float, npy.floating)):
        return ("float", float(value))
    if isinstance(value, (list, tuple)):
        return ("seq", tuple(normal(v, names, _depth=_depth + 1) for v in value))
    if isinstance(value, dict):
        return ("dict", frozenset((k, normal(v, names, _depth=_depth + 1)) for k, v in value.items()))
    if is_object(value):
        fields = public_fields(value)
        if not names:
            for field in NEUTRAL.get(type(value).__name__, ()) + ("name",):
                fields.pop(field, None)
        return ("object", f"{type(value).__module__}.{type(value).__name__}",
                frozenset((k, normal(v, names, _depth=_depth + 1)) for k, v in fields.items()))
    return ("other", repr(value))


def segment(key):
    """ Key as a segment of a path, as in JSON pointers. """
    return str(key).replace("~", "~0").replace("/", "~1")


def key(segment_):
    return segment_.replace("~1", "/").replace("~0", "~")


def walk(value, path="#", seen_path=()):
    """ Yield (path, value) for every value reachable, in containers and objects, depth first, one per path. """
    yield path, value
    if isinstance(value, (list, tuple)):
        for i, item in enumerate(value):
            yield from walk(item, f"{path}/{i}")
    elif isinstance(value, dict):
        for k, item in value.items():
            yield from walk(item, f"{path}/{segment(k)}")
    elif is_object(value):
        for k, item in public_fields(value).items():
            yield from walk(item, f"{path}/{k}")


def first_difference(a, b, path="#", names=True):
    """ Human hint on where two values differ. """
    if normal(a, names) == normal(b, names):
        return None
    if is_object(a) and is_object(b) and type(a) is type(b):
        fa, fb = public_fields(a), public_fields(b)
        for key in sorted(set(fa) | set(fb)):
            if not names and key in NEUTRAL.get(type(a).__name__, ()) + ("name",):
                continue
            if key not in fa or key not in fb:
                return f"{path}/{key} missing on one side"
            hint = first_difference(fa[key], fb[key], f"{path}/{key}", names)
            if hint:
                return hint
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            hint = first_difference(x, y, f"{path}/{i}", names)
            if hint:
                return hint
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for key in a:
            hint = first_difference(a[key], b[key], f"{path}/{key}", names)
            if hint:
                return hint
    return f"{path}: {str(a)[:120]!r} ({type(a).__name__}) / {str(b)[:120]!r} ({type(b).__name__})"


# Mutations of recipes ------------------------------------------------------------------------------------------------

def positions(value, path=()):
    """ Every position in a value recipe, as a path of indices. """
    yield path, value
    if isinstance(value, tuple) and value[0] in ("L", "T"):
        for i, item in enumerate(value[1]):
            yield from positions(item, path + (i,))
    elif isinstance(value, tuple) and value[0] == "D":
        for i, (_, item) in enumerate(value[1]):
            yield from positions(item, path + (i,))


def replace_at(recipe, path, new):
    """ Same recipe with another value at a position. """
    if not path:
        return new
    head, rest = path[0], path[1:]
    tag, items = recipe
    items = list(items)
    if tag == "D":
        items[head] = (items[head][0], replace_at(items[head][1], rest, new))
    else:
        items[head] = replace_at(items[head], rest, new)
    return (tag, items)


def reachable(specs):
    """ Indices of the specs used by the root. """
    found, todo = set(), [len(specs) - 1]
    while todo:
        index = todo.pop()
        if index in found:
            continue
        found.add(index)
        for field in specs[index][1].values():
            for _, value in positions(field):
                if isinstance(value, tuple) and value[0] == "R":
                    todo.append(value[1])
    return sorted(found)


def _anagrams(text):
    options = [text[::-1], text + "z", text[:-1], "q" + text]
    if len(text) > 1:
        options.append(text[1:] + text[:1])
        # Same sum of codes, other letters.
        if text[0] < "y" and text[1] > "0":
            options.append(chr(ord(text[0]) + 1) + chr(ord(text[1]) - 1) + text[2:])
    return [o for o in options if o != text] or [text + "z"]


@st.composite
def mutated(draw, specs):
    """ A recipe with one local change of data. May be without effect (a shared value, for instance). """
    specs = list(specs)
    index = draw(st.sampled_from(reachable(specs)))
    class_name, fields, name = specs[index]
    fields = dict(fields)
    if not fields:
        return specs
    choice = draw(st.integers(0, 9))
    if choice == 0:
        specs[index] = (class_name, fields, draw(NAMES))
        return specs
    if choice == 1 and len(fields) > 1:
        # Exchange two fields of the same kind: sums and sizes stay the same.
        schema = SCHEMA[class_name]
        pairs = [(a, b) for a in schema for b in schema if a < b and schema[a] == schema[b]]
        if pairs:
            a, b = draw(st.sampled_from(pairs))
            fields[a], fields[b] = fields[b], fields[a]
            specs[index] = (class_name, fields, name)
            return specs
    if choice == 2:
        alike = [c for group in ALIKE if class_name in group for c in group]
        if alike:
            specs[index] = (draw(st.sampled_from(alike)), fields, name)
            return specs
    field = draw(st.sampled_from(sorted(fields)))
    spots = list(positions(fields[field]))
    spots += [s for s in spots if isinstance(s[1], tuple) and s[1][0] in "DL"] * 2
    path, old = draw(st.sampled_from(spots))
    new = old
    if isinstance(old, tuple):
        tag = old[0]
        if tag == "L":
            items = list(old[1])
            action = draw(st.sampled_from(["drop", "double", "swap", "none"]))
            if items:
                i = draw(st.integers(0, len(items) - 1))
                if action == "drop":
                    del items[i]
                elif action == "double":
                    items.insert(i, items[i])
                elif action == "swap":
                    j = draw(st.integers(0, len(items) - 1))
                    items[i], items[j] = items[j], items[i]
            new = ("L", items)
        elif tag == "D":
            items = list(old[1])
            action = draw(st.sampled_from(["drop", "rename", "swap", "add", "reorder"]))
            if items:
                i = draw(st.integers(0, len(items) - 1))
                if action == "drop":
                    del items[i]
                elif action == "rename":
                    keys = {k for k, _ in items}
                    empty = [j for j, (_, v) in enumerate(items) if v is None]
                    i = empty[0] if empty else i
                    key = items[i][0] + "_"
                    if key not in keys:
                        items[i] = (key, items[i][1])
                elif action == "swap":
                    j = draw(st.integers(0, len(items) - 1))
                    (ki, vi), (kj, vj) = items[i], items[j]
                    items[i], items[j] = (ki, vj), (kj, vi)
                    if i == j:
                        items = list(old[1])
                elif action == "add":
                    if "m" not in {k for k, _ in items}:
                        items.insert(i, ("m", items[i][1]))
                else:
                    items.reverse()
            new = ("D", items)
        elif tag == "M":
            new = ("M", old[1], draw(FLOATS))
        elif tag == "C":
            new = ("C", draw(CLASS_NAMES))
        elif tag == "N":
            new = ("N", old[1], old[2] + 1)
        elif tag == "R":
            new = ("R", draw(st.integers(0, index - 1)))
    elif isinstance(old, bool):
        new = not old
    elif isinstance(old, str):
        new = draw(st.sampled_from(_anagrams(old)))
    elif isinstance(old, float):
        # Close values too, well above the tolerance of the library (1e-9).
        near = []
        if 1e-2 <= abs(old) <= 1e9:
            near = [old * (1 + 1e-6), old * (1 - 1e-4)]
        elif abs(old) < 1e-2:
            near = [old + 1e-5]
        new = draw(st.one_of(FLOATS, st.sampled_from(near)) if near else FLOATS)
    elif isinstance(old, int):
        new = old + draw(st.sampled_from([1, -1, 100000, -100000]))
    elif old is None:
        new = draw(st.sampled_from([None, 0.5]))
    fields[field] = replace_at(fields[field], path, new)
    specs[index] = (class_name, fields, name)
    return specs


@st.composite
def pairs(draw, mutations=2, **kwargs):
    """ Two recipes, the second being the first with at most a few local changes. """
    first = draw(graphs(**kwargs))
    second = first
    for _ in range(draw(st.integers(0, mutations))):
        second = draw(mutated(second))
    return first, second


def resolve(value, path):
    """ Value at a path of the `walk` kind. Raises LookupError when there is none. """
    for step in map(key, path.split("/")[1:]):
        if isinstance(value, (list, tuple)):
            value = value[int(step)]
        elif isinstance(value, dict):
            if step in value:
                value = value[step]
            else:
                value = {str(k): v for k, v in value.items()}[step]
        elif is_object(value):
            value = public_fields(value)[step]
        else:
            raise LookupError(path)
    return value
