""" Classes that have the names of classes of `vmodels`. """
from typing import Any, Dict, Tuple

import vblocks
from dessia_common.core import DessiaObject


class Leaf(DessiaObject):
    """ Same arguments as the other one. """

    def __init__(self, value: float, count: int, label: str, flag: bool, name: str = ""):
        self.value = value
        self.count = count
        self.label = label
        self.flag = flag
        DessiaObject.__init__(self, name=name)


class Slot(DessiaObject):
    """ Same argument as the other one, and one more. """

    _standalone_in_db = True

    def __init__(self, payload: Any = None, option: float = None, name: str = ""):
        self.payload = payload
        self.option = option
        DessiaObject.__init__(self, name=name)


class Bag(DessiaObject):
    """ Other arguments than the other one, some of the same name. """

    def __init__(self, couple: Tuple[str, int], content: Dict[str, float], name: str = ""):
        self.couple = couple
        self.content = content
        DessiaObject.__init__(self, name=name)


class Gear(vblocks.Gear):
    """ Does all that the other one does. """


class Sun(vblocks.Sun):
    """ Does all that the other one does. """
