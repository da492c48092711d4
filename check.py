#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [only=<harness substring>]"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
if os.environ.get("SX_CHILD") != "1":
    os.environ["SX_CHILD"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symex import runner  # noqa: E402

runner.main(sys.argv[1:])
