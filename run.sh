#!/bin/bash
# Run one check (or a replay) from /verif with the interpreter that has sandfs' dependencies.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B check.py "$@"
