#!/usr/bin/env python3
"""
Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]

Exit 0: the property held on everything generated.
Exit 1: a VIOLATION line was printed, with a replay file holding the shrunk case.
Exit 3: the check itself could not run (never reported as a violation).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"

WANTED = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "agg", "OMP_NUM_THREADS": "1",
          "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore"}

if os.environ.get("_VRUN") != "1":
    env = dict(os.environ)
    env.update(WANTED)
    env["_VRUN"] = "1"
    env.pop("PYTHONPATH", None)
    interpreter = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(interpreter, [interpreter, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, "vlib"))
import boot  # noqa: E402
boot.setup(HERE)
import engine  # noqa: E402
sys.exit(engine.main(sys.argv[1:]))
