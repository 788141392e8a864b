""" The engineering models the generated workflows work on. Calls are traced in CALLS. """
from typing import List, Tuple

import plot_data
from dessia_common.core import DessiaObject, PhysicalObject
from dessia_common.decorators import markdown_view, plot_data_view
from dessia_common.files import BinaryFile, StringFile

CALLS = []


class Part(PhysicalObject):
    """
    A part.

    :param size: How large it is
    :param weight: How heavy it is
    """

    _standalone_in_db = True

    def __init__(self, size: float, weight: float = 1.5, label: str = "p", name: str = ""):
        CALLS.append("Part")
        self.size = size
        self.weight = weight
        self.label = label
        super().__init__(name=name)

    def scaled(self, factor: float, offset: float = 0.5) -> float:
        """
        Scale.

        :param factor: Multiplies
        """
        CALLS.append("scaled")
        return self.size * factor + offset

    def grown(self, by: float) -> 'Part':
        """ A larger part. """
        CALLS.append("grown")
        return Part(self.size + by, self.weight, self.label, self.name)

    def tracked(self, factor: float, progress_callback=lambda x: None) -> float:
        """ Tells its progress. """
        CALLS.append("tracked")
        for i in range(3):
            progress_callback((i + 1) / 3)
        return self.weight * factor

    def tagged(self, tag: str, count: int = 2) -> str:
        """ A text. """
        CALLS.append("tagged")
        return self.label + tag * count

    @classmethod
    def from_sum(cls, first: float, second: float = 2.) -> 'Part':
        """ Alternative constructor. """
        CALLS.append("from_sum")
        return cls(first + second)

    @staticmethod
    def series(start: float, step: float, number: int = 3) -> List[float]:
        """ Numbers. """
        CALLS.append("series")
        return [start + i * step for i in range(number)]

    @staticmethod
    def either(first: float = 4., second: float = None) -> float:
        """ The second one, or the first one. """
        CALLS.append("either")
        return first if second is None else second

    def fallback(self, value: float) -> float:
        """ The value, or the size. """
        CALLS.append("fallback")
        return self.size if value is None else value

    @classmethod
    def total(cls, parts: List['Part']) -> float:
        """ Sum of sizes. """
        CALLS.append("total")
        return sum(p.size for p in parts)

    def shift(self, by: float) -> float:
        """ Changes the part itself. """
        CALLS.append("shift")
        self.size += by
        return self.size

    @markdown_view("Sheet")
    def sheet(self):
        """ Markdown view. """
        return f"# {self.label} {self.size} {self.weight}"

    @markdown_view("Brief")
    def brief(self):
        """ Another. """
        return f"*{self.label}* {self.size}"

    @markdown_view("Card", load_by_default=True)
    def card(self, reference_path: str = "#"):
        """ A third one, which knows where it is. """
        return f"{self.weight} {self.label} at {reference_path}"

    @plot_data_view("Graph")
    def graph(self, reference_path: str = "#"):
        """ Plot view. """
        point = plot_data.Point2D(cx=self.size, cy=self.weight)
        return plot_data.PrimitiveGroup(primitives=[point], name=self.label)

    @plot_data_view("Swapped")
    def swapped(self):
        """ Other plot view. """
        point = plot_data.Point2D(cx=self.weight, cy=self.size)
        return plot_data.PrimitiveGroup(primitives=[point], name=self.label)

    def save_text(self, stream: StringFile) -> StringFile:
        """ Text export. """
        stream.write(f"{self.label};{self.size};{self.weight}")
        return stream

    def save_binary(self, stream: BinaryFile) -> BinaryFile:
        """ Binary export. """
        stream.write(f"{self.size}|{self.weight}".encode())
        return stream


class BigPart(Part):
    """ A child class. """


class Machine(DessiaObject):
    """ Another class whose constructor has the same number of letters as nothing else. """

    def __init__(self, size: float, weight: float = 1.5, label: str = "p", name: str = ""):
        CALLS.append("Machine")
        self.size = size
        self.weight = weight
        self.label = label
        super().__init__(name=name)
