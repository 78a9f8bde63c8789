#!/bin/bash
# Nothing to compile: the library is pure Python and is imported from /repo's working tree
# by every check.  Verify that the interpreter and the monitor core load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -W ignore - <<'PY'
import sys
sys.path.insert(0, ".")
import vlib.core, vlib.ref, torch, numpy
print("setup ok: torch", torch.__version__)
PY
