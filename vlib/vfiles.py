""" What workflows are fed with files for. """
from typing import List

from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile, StringFile


class Reading(DessiaObject):
    """ What was read in a file. """

    def __init__(self, text: str, factor: float = 1., name: str = ""):
        self.text = text
        self.factor = factor
        super().__init__(name=name)

    @classmethod
    def from_text(cls, file: StringFile, factor: float = 1.) -> "Reading":
        """ Reads a text. """
        return cls(file.getvalue(), factor)

    @classmethod
    def from_several(cls, files: List[StringFile], factor: float = 1.) -> "Reading":
        """ Reads texts. """
        return cls("+".join(f.getvalue() for f in files), factor)

    @classmethod
    def from_binary(cls, file: BinaryFile = None, factor: float = 1.) -> "Reading":
        """ Reads bytes, if any. """
        return cls("nothing" if file is None else file.getvalue().decode("utf-8"), factor)

    def write(self) -> StringFile:
        """ Writes the text again. """
        file = StringFile("written.txt")
        file.write(self.text)
        file.seek(0)
        return file
