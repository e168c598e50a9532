#!/bin/bash
# Nothing to build: the checks import /repo/src directly.  Verify the toolchain.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from vlib import harness, env, ref, gen, cmp
print('ready', env.dynamicprompts.__file__)"
