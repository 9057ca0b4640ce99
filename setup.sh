#!/bin/bash
# Nothing to build: check that the interpreter, nannos (from /repo) and the checks load.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -W ignore -c '
import importlib, glob, os, mc.core
mc.core.load_nannos()
for f in sorted(glob.glob("mc/checks/c*.py")):
    importlib.import_module("mc.checks." + os.path.basename(f)[:-3])
print("ok")
'
