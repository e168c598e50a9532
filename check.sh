#!/bin/bash
# usage: check.sh Pnn [options]   (see check.py)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONSTARTUP
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export VERIF_SCRATCH="$S"
/opt/venv/bin/python -B check.py "$@"
