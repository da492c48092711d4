"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NA
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = "solver-based symbolic execution of the real Python source (Z3), with replay"
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = {a["property"] for a in NA}
m = {"version": 1,
     "setup_cmd": PY + " -m compileall -q symex harness check.py replay.py || true",
     "checks": [{"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']} quick",
                 "thorough_cmd": f"{PY} check.py {p['id']} thorough",
                 "technique": TECH, "level": "model_checking",
                 "level_note": ("The real functions run on symbolic values; Z3 decides every branch and assertion for all values within "
                                "the bounds (exhaustive, no sampling); counterexamples are replayed on the unmodified code. Floats on "
                                "dyadic grids are exact rationals. Trusted: the symbolic value classes, Z3. Bounds: " + p["_note"])}
                for p in P if p["id"] not in na],
     "not_applicable": NA}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
