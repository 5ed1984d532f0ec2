#!/bin/sh
# Nothing has to be built: check that the interpreter and the library are there.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; assert sys.version_info >= (3, 6)'
