#!/bin/bash
# Nothing to compile: checks that the interpreter and the working tree of /repo import.
cd "$(dirname "$0")" || exit 2
pyc=$(mktemp -d) ; trap 'rm -rf "$pyc"' EXIT
PYTHONPYCACHEPREFIX="$pyc" /opt/venv/bin/python -W ignore -c "
from mc import core
core.import_subject()
import mc.terms
print('ok')"
