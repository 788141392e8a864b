"""
Single source of the list of properties: writes properties.jsonl and MANIFEST.json.

    python3 tools/props.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []


def prop(ident, title, statement, over, text, tests, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, title
    PROPERTIES.append({
        "id": ident, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe), "hook_needed": None},
        "_technique": technique, "_note": note})


D = "dessia_common/"
exec(open(os.path.join(ROOT, "tools", "props_list.py"), encoding="utf-8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as file:
    for entry in PROPERTIES:
        file.write(json.dumps({k: v for k, v in entry.items() if not k.startswith("_")}) + "\n")

checks = []
for entry in PROPERTIES:
    ident = entry["id"]
    if not os.path.exists(os.path.join(ROOT, "vlib", "checks", ident.lower() + ".py")):
        raise SystemExit(f"no check for {ident}")
    checks.append({"property": ident, "quick_cmd": f"python3 run.py {ident} --tier quick",
                   "thorough_cmd": f"python3 run.py {ident} --tier thorough", "technique": entry["_technique"],
                   "level": "exploration", "level_note": entry["_note"]})
manifest = {"version": 1, "setup_cmd": "python3 run.py --self-check", "checks": checks, "not_applicable": [],
            "notes": "Checks import dessia_common from /repo's working tree: no build step. Python and hypothesis come "
                     "from the sandbox (/opt/venv, /opt/veriftools). See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
print(len(PROPERTIES), "properties")
