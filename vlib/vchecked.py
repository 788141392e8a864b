""" Models of which some cannot live on the platform, and models with displays. """
from typing import Any, Dict, List

from dessia_common import checks
from dessia_common.core import DessiaObject
from dessia_common.decorators import cad_view, markdown_view, plot_data_view


class Box(DessiaObject):
    """ Holds anything. """

    def __init__(self, content: Any, others: List[Any], more: Dict[str, Any], name: str = ""):
        self.content = content
        self.others = others
        self.more = more
        super().__init__(name=name)


class Sound(DessiaObject):
    """ Nothing wrong. """

    def __init__(self, value: float, name: str = ""):
        self.value = value
        super().__init__(name=name)


class Personal(Sound):
    """ Equal to itself only, but its data can be compared. """

    _eq_is_data_eq = False


class Forgetful(Sound):
    """ Its serialized form forgets its value. """

    def to_dict(self, *args, **kwargs):
        """ Wrong. """
        dict_ = super().to_dict(*args, **kwargs)
        dict_["value"] = self.value + 1.
        return dict_


class Mutant(Sound):
    """ Its copies are others. """

    def __deepcopy__(self, memo=None):
        return self.__class__(self.value + 1., name=self.name)


class Wary(Sound):
    """ Has checks of its own. """

    def __init__(self, value: float, recipe: List[List[str]], name: str = ""):
        self.recipe = recipe
        super().__init__(value, name=name)

    def check_list(self, level: str = "error", check_platform: bool = True):
        """ Its checks. """
        found = super().check_list(level=level, check_platform=check_platform)
        found += checks.CheckList([getattr(checks, kind)(message) for kind, message in self.recipe])
        return found


class Dotted(DessiaObject):
    """ Its keys hold dots. """

    def __init__(self, table: Dict[str, float], name: str = ""):
        self.table = table
        super().__init__(name=name)


class OwnError(Exception):
    """ An error of a model. """


ERRORS = [ValueError, ZeroDivisionError, OwnError, KeyError, RuntimeError, AssertionError, NotImplementedError, IndexError,
          TypeError, AttributeError, OSError, StopIteration]


class Views(DessiaObject):
    """ Has displays of every kind. """

    def __init__(self, title: str, numbers: List[float], failing: List[str], name: str = ""):
        self.title = title
        self.numbers = numbers
        self.failing = failing
        super().__init__(name=name)

    def fail(self, view):
        """ Raises when asked to. """
        if view in self.failing:
            raise ERRORS[(len(self.title) + len(self.numbers) + len(view)) % len(ERRORS)](f"view {view} fails")

    @plot_data_view("Plot", load_by_default=True)
    def plot(self):
        """ Data of a plot. """
        self.fail("Plot")
        return {"numbers": self.numbers, "title": self.title}

    @plot_data_view()
    def unnamed_plot(self):
        """ A plot with the name of its method. """
        self.fail("unnamed_plot")
        return [self.title]

    @cad_view("CAD")
    def shape(self):
        """ Data of a shape. """
        self.fail("CAD")
        return {"meshes": [{"position": self.numbers}], "of": Sound(1.)}

    def no_view(self):
        """ Not a display. """
        return "nothing"


class WordyViews(Views):
    """ Has its own texts too. """

    @markdown_view("Text", load_by_default=True)
    def text(self):
        """ Lines. """
        self.fail("Text")
        return f"""
            # {self.title}

            {self.numbers}
            """

    @cad_view("Other CAD", load_by_default=True)
    def shape(self):
        """ Overrides. """
        self.fail("Other CAD")
        return {"of": self.title}

    def unnamed_plot(self):
        """ Not a display anymore. """
        return "nothing"
