#!/usr/bin/env python
"""check.py PROPERTY: decide one property on the current /repo tree."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("PYTHONHASHSEED", "0")

if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from symx import runner

    sys.exit(runner.main(sys.argv[1]))
