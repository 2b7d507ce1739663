#!/bin/bash
# Nothing has to be compiled: checks the pieces the checks import are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD:$PWD/vendor /opt/venv/bin/python -c "
import hypothesis, vlib.core
print('hypothesis', hypothesis.__version__)"
