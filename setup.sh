#!/bin/bash
# Nothing to build: the checks are Python and use the interpreter that runs /repo's tests; the Fortran converter is
# compiled from /repo by the check that needs it.
set -e
/opt/venv/bin/python -c "import numpy, pandas, scipy, h5py, tables, SALib"
mkdir -p "$(dirname "$0")/evidence"
echo ok
