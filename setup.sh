#!/bin/bash
# nothing to build: checks that the tools are there
cd "$(dirname "$0")" || exit 2
set -e
mkdir -p evidence/replay
python3-vt -c 'import z3'
/usr/bin/z3 --version
/opt/venv/bin/python -c 'import yaml, six'
