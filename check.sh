#!/bin/bash
# check.sh <PROPERTY> [options]: runs the check of one property (see pbt/run.py).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -I -B "$PWD/pbt/run.py" "$@"
