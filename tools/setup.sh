#!/bin/bash
# Nothing to compile: check that the tools the checks use are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import z3, numpy; print('z3', z3.get_version_string())"
cvc5 --version | head -1
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, numba; print('venv ok')"
mkdir -p evidence
