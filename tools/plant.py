"""
Plants bugs: applies an edit in /repo, confirms that the stable tests pass and that the demonstration tells it apart,
runs the check of the property, undoes the edit, and keeps the bug in seeded/<id>/.

Used as a module by throw-away scripts: plant("id", "P01", [(file, old, new), ...], demo, needs, breaks).
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py"
'''
HEADER = '''import os, sys, warnings, tempfile
warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
'''


def sh(command, **kwargs):
    return subprocess.run(command, shell=True, capture_output=True, text=True, **kwargs)


def demo_code(folder):
    return sh(f"bash {folder}/demo.sh", cwd="/repo", timeout=290)


def plant(ident, prop, edits, demo, needs, breaks, tests=True, checks=()):
    if sh("git -C /repo status --porcelain").stdout.strip():
        raise SystemExit("/repo is not clean")
    folder = os.path.join(ROOT, "seeded", ident)
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    with open(os.path.join(folder, "demo.sh"), "w") as file:
        file.write(DEMO_SH)
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    with open(os.path.join(folder, "demo.py"), "w") as file:
        file.write(HEADER + demo.lstrip("\n"))
    with open(os.path.join(folder, "meta.json"), "w") as file:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, file, indent=1)
    good = True
    before = demo_code(folder)
    if before.returncode:
        print(ident, "DEMO FAILS ON THE UNCHANGED TREE:", before.stderr[-600:])
        good = False
    try:
        for path, old, new in edits:
            full = os.path.join("/repo", path)
            with open(full, encoding="utf-8") as file:
                text = file.read()
            if text.count(old) != 1:
                print(ident, f"EDIT: {text.count(old)} occurrences in {path}")
                good = False
                continue
            with open(full, "w", encoding="utf-8") as file:
                file.write(text.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        with open(os.path.join(folder, "patch.diff"), "w", encoding="utf-8") as file:
            file.write(diff)
        after = demo_code(folder)
        if not after.returncode:
            print(ident, "DEMO DOES NOT SEE THE CHANGE")
            good = False
        results = []
        if good:
            if tests:
                outcome = sh("/root/t.sh").stdout.strip()
                if outcome != "tests ok":
                    print(ident, "TESTS:", outcome[:300])
                    good = False
            for name in (prop, *checks):
                found = sh(f"{sys.executable} run.py {name}", cwd=ROOT)
                whats = [line.strip() for line in found.stdout.splitlines() if line.strip().startswith("what:")]
                results.append(f"{name}:{'CAUGHT' if found.returncode == 1 else 'MISSED rc=%d' % found.returncode} "
                               f"{whats[0][:150] if whats else ''}")
        print(ident, "ok" if good else "REJECTED", "|", (after.stderr.strip().splitlines() or [""])[-1][:120], "|",
              *results, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
    if not good:
        shutil.rmtree(folder, ignore_errors=True)
    return good
