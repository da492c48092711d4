#!/opt/venv/bin/python
"""replay.py <evidence/replays/X.json>: runs the recorded input against the untouched package.
Exit 1 when the violation reproduces."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("SX_CHILD") != "2":
    os.environ["SX_CHILD"] = "2"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get("SX_REPO", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symex import api, runner  # noqa: E402

rec = json.load(open(sys.argv[1]))
importlib.import_module(runner.module_of(rec["property"]))
r = api.run_concrete(api.REGISTRY[rec["harness"]], rec["param"], rec["inputs"])
print(json.dumps(r, indent=1))
sys.exit(1 if r["failed"] or r["exc"] else 0)
