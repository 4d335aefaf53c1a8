#!/bin/bash
# Usage: ./run_check.sh CXX [--replay FILE]
# Exit 0: held on everything explored; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
TMPPY=$(mktemp -d /tmp/dschpbt-pyc.XXXXXX) || exit 2
trap '/bin/rm -rf "$TMPPY"' EXIT
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX="$TMPPY"
"$PY" -W ignore -m dschpbt.run "$@"
