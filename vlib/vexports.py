""" A model with exports of all kinds, several of them with the same extension. """
from typing import Any, List

from dessia_common.core import DessiaObject
from dessia_common.decorators import export_decorator, export_docx, export_html, export_step, export_stl, export_xlsx
from dessia_common.document_generator import DocxWriter, Paragraph
from dessia_common.exports import XLSXWriter


class Sheet(DessiaObject):
    """ Has exports. """

    def __init__(self, title: str, number: float, items: List[float], other: Any = None, name: str = ""):
        self.title = title
        self.number = number
        self.items = items
        self.other = other
        super().__init__(name=name)

    @export_decorator("table", "csv", True)
    def save_table(self, stream):
        """ Text. """
        stream.write("title;number\n")
        stream.write(f"{self.title};{self.number}\n")

    @export_decorator("list", "csv", True)
    def save_list(self, stream):
        """ Text with the same extension. """
        stream.write("\n".join(str(i) for i in self.items))

    @export_html("page")
    def save_page(self, stream):
        """ Text. """
        stream.write(f"<html>{self.title}</html>")

    @export_step("shape")
    def save_shape(self, stream):
        """ Text. """
        stream.write(f"{self.items}{self.title}")

    @export_stl("raw")
    def save_raw(self, stream):
        """ Binary. """
        stream.write(self.title.encode("utf-8") + bytes([0, 255, 10, 13]))

    @export_xlsx("book")
    def save_book(self, stream):
        """ Binary with the extension of a generic export. """
        XLSXWriter(self).save_to_stream(stream)

    @export_docx("report")
    def save_report(self, stream):
        """ Word document with the extension of a generic export. """
        writer = DocxWriter(paragraphs=[Paragraph(self.title), Paragraph(str(self.number))])
        writer.add_paragraphs()
        writer.save_to_stream(stream)


class SmallSheet(Sheet):
    """ A child class, which has exports too. """

    @export_decorator("small", "csv", True)
    def save_small(self, stream):
        """ Text. """
        stream.write(f"small {self.title}")


TEXTS = {"table": "csv", "list": "csv", "page": "html", "shape": "step", "json": "json"}
BINARIES = {"raw": "stl"}
BOOKS = {"xlsx": "xlsx", "book": "xlsx"}
DOCUMENTS = {"docx": "docx", "report": "docx"}


def content(sheet, selector):
    """ What the export holds, for those which are plain. """
    if selector == "table":
        return f"title;number\n{sheet.title};{sheet.number}\n"
    if selector == "list":
        return "\n".join(str(i) for i in sheet.items)
    if selector == "page":
        return f"<html>{sheet.title}</html>"
    if selector == "shape":
        return f"{sheet.items}{sheet.title}"
    if selector == "small":
        return f"small {sheet.title}"
    if selector == "raw":
        return sheet.title.encode("utf-8") + bytes([0, 255, 10, 13])
    raise KeyError(selector)
