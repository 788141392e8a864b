""" Models written to and read from Excel workbooks. """
from typing import Any, Dict, List, Optional, Set

from dessia_common.core import DessiaObject


class Spot(DessiaObject):
    """ Numbers and texts. """

    def __init__(self, x: float, y: int, label: str = "spot", flag: bool = False, name: str = ""):
        self.x = x
        self.y = y
        self.label = label
        self.flag = flag
        super().__init__(name=name)


class Stroke(DessiaObject):
    """ Two objects of the same class, possibly the same one, possibly none. """

    def __init__(self, end: Spot, start: Spot, numbers: List[float], middle: Optional[Spot] = None, name: str = ""):
        self.end = end
        self.start = start
        self.numbers = numbers
        self.middle = middle
        super().__init__(name=name)


class Screw(DessiaObject):
    """ Item of lists. """

    def __init__(self, size: float, head: Optional[Spot] = None, name: str = ""):
        self.size = size
        self.head = head
        super().__init__(name=name)


class Washer(DessiaObject):
    """ Item of dicts. """

    def __init__(self, size: float, stroke: Optional[Stroke] = None, name: str = ""):
        self.size = size
        self.stroke = stroke
        super().__init__(name=name)


class Gasket(DessiaObject):
    """ Item of sets. """

    def __init__(self, size: float, name: str = ""):
        self.size = size
        super().__init__(name=name)


class Kit(DessiaObject):
    """ Holds a set (objects that hold sets cannot be hashed, so no other one can hold them). """

    def __init__(self, gaskets: Set[Gasket], spot: Spot, name: str = ""):
        self.gaskets = gaskets
        self.spot = spot
        super().__init__(name=name)


class Holder(DessiaObject):
    """ Holds containers of objects. """

    def __init__(self, screws: List[Screw], washers: Dict[str, Washer], names: List[str],
                 anchor: Optional[Stroke] = None, name: str = ""):
        self.screws = screws
        self.washers = washers
        self.names = names
        self.anchor = anchor
        super().__init__(name=name)


class Machine(DessiaObject):
    """ Holds them all. The order of attributes is not that of the way objects need each other. """

    def __init__(self, a_spot: Spot, b_stroke: Stroke, holder: Optional[Holder], z_spot: Spot, other: Any = None,
                 knot: Optional["Knot"] = None, name: str = ""):
        self.a_spot = a_spot
        self.b_stroke = b_stroke
        self.holder = holder
        self.z_spot = z_spot
        self.other = other
        self.knot = knot
        super().__init__(name=name)


class Knot(DessiaObject):
    """ Holds others of its class. """

    def __init__(self, value: int, left: Optional["Knot"] = None, right: Optional["Knot"] = None,
                 spot: Optional[Spot] = None, name: str = ""):
        self.value = value
        self.left = left
        self.right = right
        self.spot = spot
        super().__init__(name=name)


class Loose(DessiaObject):
    """ Holds anything: only written. """

    def __init__(self, payload: Any, more: Any = None, name: str = ""):
        self.payload = payload
        self.more = more
        self._hidden = "hidden"
        super().__init__(name=name)
