#!/usr/bin/env python3-vt
"""usage: python3-vt run_check.py C01 [quick|thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    # one order of sets and dictionaries: the same obligations are discharged the same way on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.setrecursionlimit(20000)
from pyvc.check import main  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(main(sys.argv[1]))
