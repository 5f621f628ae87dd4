#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE|unit NAME]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/nopyc
export MALLOC_ARENA_MAX=2
exec "$PY" run.py "$@"
