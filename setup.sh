#!/bin/bash
# nothing to build: check that the interpreter, the repository's dependencies and z3 are there
cd "$(dirname "$0")" && exec /opt/venv/bin/python -W ignore -c '
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, html5lib, PIL, loguru, watchdog; print("setup ok, z3", z3.get_version_string())'
