#!/bin/bash
# Nothing to compile: the checks are plain Python run directly on /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; assert sys.version_info >= (3, 8)'
