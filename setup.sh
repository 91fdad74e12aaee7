#!/bin/bash
# Offline set-up: the harness is interpreted; check that the interpreter and the code under test load.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore -c "import numpy, scipy, PIL, sys; sys.path.insert(0, '$here/harness'); import core; print('ready')"
