"""
Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json.
"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRENGTHENED = {
    "run-archive-extension": "exports whose extension does not tell the nature",
    "subworkflow-none-default": "inner workflows with inputs that are None by default",
    "refeed-none": "inputs given again, with None",
    "nbv-copy-by-name": "shared variables of the same name",
    "cov-cancellation": "data far from 0",
    "memorize-first-pipe": "blocks fed several times by the same one",
    "number-key-falsy": "empty and null values at whole-number keys",
    "union-ends": "unions of three classes",
}


def main():
    lines = ["| id | property | what it needs to show | what it breaks | strengthened |", "|----|----|----|----|----|"]
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        with open(path, encoding="utf-8") as file:
            meta = json.load(file)
        ident = os.path.basename(os.path.dirname(path))
        cells = [ident, meta["property"], meta["needs"], meta["what_it_breaks"], STRENGTHENED.get(ident, "")]
        lines.append("| " + " | ".join(c.replace("|", "/") for c in cells) + " |")
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path, encoding="utf-8") as file:
        text = file.read()
    start, end = "<!-- planted: written by tools/planted.py -->\n", "<!-- end -->"
    text = re.sub(re.escape(start) + ".*?" + re.escape(end), lambda _: start + "\n".join(lines) + "\n" + end, text, flags=re.S)
    with open(path, "w", encoding="utf-8") as file:
        file.write(text)


if __name__ == "__main__":
    main()
