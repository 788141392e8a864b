""" A family of engineering-like objects, covering what users of dessia_common put in theirs. """
from typing import Any, Dict, List, Optional, Tuple, Type, Union

import vtwin
from dessia_common.core import DessiaObject
from dessia_common.measures import Distance, Mass, Time, Measure
from dessia_common.typings import InstanceOf


class Leaf(DessiaObject):
    """ Embedded object with builtins. """

    def __init__(self, value: float, count: int, label: str, flag: bool, name: str = ""):
        self.value = value
        self.count = count
        self.label = label
        self.flag = flag
        DessiaObject.__init__(self, name=name)


class SLeaf(Leaf):
    """ Standalone flavour. """

    _standalone_in_db = True


class Slot(DessiaObject):
    """ Holds anything. """

    def __init__(self, payload: Any = None, name: str = ""):
        self.payload = payload
        DessiaObject.__init__(self, name=name)


class SSlot(Slot):
    """ Standalone flavour. """

    _standalone_in_db = True


class Branch(DessiaObject):
    """ Composition of objects through every container. """

    def __init__(self, first: DessiaObject, children: List[DessiaObject], mapping: Dict[str, DessiaObject],
                 pair: Tuple[DessiaObject, int], name: str = ""):
        self.first = first
        self.children = children
        self.mapping = mapping
        self.pair = pair
        DessiaObject.__init__(self, name=name)


class SBranch(Branch):
    """ Standalone flavour. """

    _standalone_in_db = True


class Bag(DessiaObject):
    """ Containers of builtins. """

    def __init__(self, numbers: List[float], matrix: List[List[float]], texts: Dict[str, str],
                 scores: Dict[str, float], couple: Tuple[str, int], option: Optional[float] = None, name: str = ""):
        self.numbers = numbers
        self.matrix = matrix
        self.texts = texts
        self.scores = scores
        self.couple = couple
        self.option = option
        DessiaObject.__init__(self, name=name)


class Quantity(DessiaObject):
    """ Measures. """

    def __init__(self, length: Distance, mass: Mass, times: List[Time], name: str = ""):
        self.length = length
        self.mass = mass
        self.times = times
        DessiaObject.__init__(self, name=name)


class Typed(DessiaObject):
    """ Holds a class, and a text. """

    def __init__(self, class_: Type, text: str, name: str = ""):
        self.class_ = class_
        self.text = text
        DessiaObject.__init__(self, name=name)


class Special(DessiaObject):
    """ Private, non serializable, non equality and non hash attributes, and a computed one. """

    _non_serializable_attributes = ["scratch"]
    _non_data_eq_attributes = ["name", "comment"]
    _non_data_hash_attributes = ["name", "comment", "heavy"]

    def __init__(self, base: float, heavy: List[float], comment: str = "", name: str = ""):
        self.base = base
        self.heavy = heavy
        self.comment = comment
        self.scratch = [base]
        self._cache = {"base": base}
        self.double = 2 * base
        DessiaObject.__init__(self, name=name)


class Note(DessiaObject):
    """ An attribute that is only declared neutral for equality. """

    _non_data_eq_attributes = ["name", "remark"]

    def __init__(self, body: str, remark: str = "", name: str = ""):
        self.body = body
        self.remark = remark
        DessiaObject.__init__(self, name=name)


class KwOnly(DessiaObject):
    """ Keyword-only arguments. """

    def __init__(self, a: float, *, b: float = 0.5, tags: List[str] = None, name: str = ""):
        self.a = a
        self.b = b
        self.tags = tags
        DessiaObject.__init__(self, name=name)


class Strict(DessiaObject):
    """ Identity equality. """

    _eq_is_data_eq = False

    def __init__(self, value: float, items: List[float] = None, name: str = ""):
        self.value = value
        self.items = items
        DessiaObject.__init__(self, name=name)


CLASSES = {c.__name__: c for c in (Leaf, SLeaf, Slot, SSlot, Branch, SBranch, Bag, Quantity, Typed, Special, KwOnly,
                                   Note, Strict)}
CLASSES.update({f"Twin{c.__name__}": c for c in (vtwin.Leaf, vtwin.Slot, vtwin.Bag)})
MEASURES = {c.__name__: c for c in (Distance, Mass, Time)}
