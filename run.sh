#!/bin/bash
# run.sh PID: decide one property on the current tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt check.py "$1"
