#!/bin/bash
# Offline set-up: unpack Hypothesis beside the framework. Each check can also do this by itself (pbt/deps.py).
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" "$here/pbt/deps.py"
