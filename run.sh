#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]
# Runs one property's monitors against /repo's current working tree.
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$here/harness/main.py" "$@"
