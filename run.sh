#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]     run one check
#        run.sh --replay <file>                 re-run one recorded counterexample
# Everything is imported from /repo's working tree; bytecode goes to a throw-away
# directory so that neither stale .pyc files nor __pycache__ in /repo matter.
set -u
cd "$(dirname "$0")" || exit 2
pyc=$(mktemp -d "${TMPDIR:-/tmp}/dsmc.XXXXXX") || exit 2
trap 'rm -rf "$pyc"' EXIT
export PYTHONPYCACHEPREFIX="$pyc" PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE 2>/dev/null
export VERIF_SCRATCH="$pyc"
[ $# -ge 2 ] && [ "$1" != "--replay" ] && export VERIF_TIER="$2"
/opt/venv/bin/python -W ignore -m mc.main "$@"
exit $?
