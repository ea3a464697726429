#!/bin/bash
# Nothing to build: checks that the interpreter and the solver bindings are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "
from vsym import core
import z3
print('z3', z3.get_version_string())"
