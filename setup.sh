#!/bin/bash
# nothing to build: checks that the interpreter, the solvers and the repository import
cd "$(dirname "$0")"
export PATH=/opt/venv/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
mkdir -p evidence replay
exec /opt/venv/bin/python - <<'P'
from pyvc import harness
harness.setup_paths()
import numpy, z3, basix, sympy
try:
    import cvc5
    c = cvc5.__version__
except Exception as e:
    c = "missing (%s)" % e
print("numpy", numpy.__version__, "z3", z3.get_version_string(), "cvc5", c, "basix", basix.__version__)
P
