""" Objects with features, for the checks of data sets. """
from hypothesis import strategies as st

from dessia_common.core import DessiaObject
from engine import expect


class Inner(DessiaObject):
    """ Reached by a path. """

    def __init__(self, value: float, name: str = ""):
        self.value = value
        DessiaObject.__init__(self, name=name)


class Row(DessiaObject):
    """ Three numbers, and what is computed of them. """

    _standalone_in_db = True
    _vector_features = ["x", "y", "z"]

    def __init__(self, x: float, y: float, z: float, name: str = ""):
        self.x = x
        self.y = y
        self.z = z
        self.inner = Inner(x - z)
        DessiaObject.__init__(self, name=name)

    @property
    def total(self):
        """ A computed feature. """
        return self.x + self.y


class Turned(Row):
    """ The same features, in another order. """

    _vector_features = ["z", "x", "y"]


class Fewer(Row):
    """ Less features. """

    _vector_features = ["x", "y"]


class More(Row):
    """ More features, one by a path and one computed. """

    _vector_features = ["x", "y", "z", "inner/value", "total"]


class Deep(Row):
    """ Paths and long names. """

    _vector_features = ["total", "inner/value", "y"]


class Plain(DessiaObject):
    """ Features by default: its attributes and arguments that are numbers. """

    ratio = 2.5

    def __init__(self, x: float, y: int, z: bool, name: str = "", label: str = "label"):
        self.x = x
        self.y = y
        self.z = z
        self.label = label
        DessiaObject.__init__(self, name=name)


class Named(Row):
    """ The name is a feature, after a long one. """

    _vector_features = ["quantity_of_something", "name", "x"]

    @property
    def quantity_of_something(self):
        """ Long name. """
        return self.x - self.y


CLASSES = [Row, Turned, Fewer, More, Deep, Plain]
READ = {"x": lambda o: o.x, "y": lambda o: o.y, "z": lambda o: o.z, "total": lambda o: o.x + o.y,
        "inner/value": lambda o: o.x - o.z, "name": lambda o: o.name, "ratio": lambda o: 2.5,
        "quantity_of_something": lambda o: o.x - o.y}
GRID = st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3, 1, 4, 7.25])
ANY = GRID | st.floats(-1e6, 1e6, allow_nan=False).map(lambda f: round(f, 6))
NAMES = st.sampled_from(["", "a", "b", "long name of an object"])


def rows(kinds=range(len(CLASSES)), min_size=0, max_size=10, numbers=ANY):
    """ Recipes of lists of objects, mostly of one class. """
    one = st.tuples(numbers, numbers, numbers, NAMES)

    def of(allowed):
        return st.lists(st.tuples(st.sampled_from(allowed), one), min_size=min_size, max_size=max_size)

    return st.lists(st.sampled_from(list(kinds)), min_size=1, max_size=2, unique=True).flatmap(of)


def build(recipe):
    return [CLASSES[kind](x, y, z, name) for kind, (x, y, z, name) in recipe]


def features(objects):
    """ Features common to all, in the order of the first. """
    if not objects:
        return []
    lists = []
    for class_ in map(type, objects):
        if class_ is Plain:
            lists.append(list(class_.vector_features()))  # They have no order of their own
            expect(sorted(lists[-1]) == ["ratio", "x", "y", "z"], lambda: f"features by default: {lists[-1]}")
        else:
            lists.append(class_._vector_features)
    return [f for f in lists[0] if all(f in fs for fs in lists)]


def table(objects):
    return [[READ[f](o) for f in features(objects)] for o in objects]
