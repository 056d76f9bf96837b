#!/bin/bash
# Nothing is built: the checks instrument /repo's sources when they run.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec /opt/veriftools/pyvenv/bin/python -c 'import z3, sys; sys.path.insert(0, "."); import sx.core, sx.runner; print("z3", z3.get_version_string())'
