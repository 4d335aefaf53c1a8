#!/bin/bash
# Nothing to build: check that everything the harness needs is importable.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 "$PY" -W ignore -c '
import dschpbt, hypothesis, numpy, h5py, scipy
print("dsch from", dschpbt.REPO, "Hypothesis", hypothesis.__version__)'
