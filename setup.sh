#!/bin/bash
# Nothing to compile: check that the interpreter, z3 and the code import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src MPLBACKEND=Agg
T=$(mktemp -d /tmp/vpsetup.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR="$T"
exec /opt/venv/bin/python -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, z3, disc_solver.solve
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
'
