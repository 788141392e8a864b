""" Models for blocks taken one by one: signatures of every shape, views and exports. """
from typing import Dict, List, Optional, Tuple

import plot_data
from dessia_common.core import DessiaObject
from dessia_common.decorators import cad_view, markdown_view, plot_data_view
from dessia_common.files import BinaryFile, StringFile


class Gear(DessiaObject):
    """
    A gear.

    :param teeth: How many teeth
    :param material: What it is made of
    """

    def __init__(self, teeth: int, module: float = 2.5, material: str = "steel", marks: List[str] = None,
                 name: str = ""):
        self.teeth = teeth
        self.module = module
        self.material = material
        self.marks = marks
        super().__init__(name=name)

    def ratio(self, other_teeth: int, efficiency: float = 0.5) -> float:
        """
        A ratio.

        :param other_teeth: Of the other one
        """
        return self.teeth * efficiency + other_teeth

    def describe(self, progress_callback=lambda x: None, prefix: str = "<", suffix: str = "!") -> str:
        """ The callback comes first. """
        progress_callback(0.5)
        return prefix + self.material + suffix

    def polynomial(self, first: float, second: float, third: float = 1., fourth: float = 2.) -> List[float]:
        """ Two by two. """
        return [self.module, first, second, third, fourth]

    def limits(self, margin: float = 0.25) -> Tuple[float, float]:
        """ A pair. """
        return self.module - margin, self.module + margin

    def bare(self, number: int):
        """ No announced return. """
        return {"number": number, "teeth": self.teeth}

    def nothing(self) -> None:
        """ No argument, no result. """

    def twin(self) -> 'Gear':
        """ Another one. """
        return Gear(self.teeth, self.module, self.material, self.marks, self.name)

    @classmethod
    def standard(cls, size: int = 3, material: str = "iron") -> 'Gear':
        """
        All defaults.

        :param size: How large
        """
        return cls(size * 10, float(size), material)

    @classmethod
    def exact(cls, teeth: int, marks: List[str]) -> 'Gear':
        """ No default. """
        return cls(teeth, marks=marks)

    @staticmethod
    def mean(values: List[float], offset: float = 1.) -> float:
        """ Static, one default. """
        return sum(values) + offset

    @staticmethod
    def scale(factor: float = 2., offset: Optional[float] = None) -> List[float]:
        """ Static, all defaults. """
        return [factor, offset]

    @staticmethod
    def table(keys: Dict[str, float], width: int) -> Dict[str, float]:
        """ Static, no default. """
        return {k: v * width for k, v in keys.items()}

    @markdown_view("Text")
    def text(self, reference_path: str = "#"):
        """ Knows where it is. """
        return f"{self.material} {self.teeth} {reference_path}"

    @markdown_view("Plain")
    def plain_text(self):
        """ Does not. """
        return f"{self.material}"

    @plot_data_view("Plot")
    def drawn(self, reference_path: str = "#"):
        """ A point. """
        return plot_data.PrimitiveGroup(primitives=[plot_data.Point2D(cx=self.teeth, cy=self.module)],
                                        name=reference_path)

    @cad_view("Solid")
    def solid(self):
        """ A solid. """
        return {"meshes": [self.teeth, self.module]}

    def write(self, stream: StringFile):
        """ Text. """
        stream.write(f"{self.material}\n{self.teeth}")

    def dump(self, stream: BinaryFile):
        """ Binary. """
        stream.write(f"{self.module}".encode())


class Sun(Gear):
    """ A child, with its own ways. """

    def ratio(self, other_teeth: int, efficiency: float = 0.5) -> float:
        """ Its own. """
        return -1. * other_teeth - efficiency


class Train(DessiaObject):
    """ Holds gears. """

    def __init__(self, gears: List[Gear], first: Gear, names: Dict[str, float] = None, name: str = ""):
        self.gears = gears
        self.first = first
        self.names = names
        super().__init__(name=name)


class Alone(DessiaObject):
    """ One argument, its name. """

    def __init__(self, name: str = "alone"):
        super().__init__(name=name)
