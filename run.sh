#!/bin/bash
# Usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--jobs N]
# Runs one check against the code in /repo (pure Python: nothing to build, the
# working tree is imported as it is).
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg PYVISTA_OFF_SCREEN=true
export JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
unset NANNOS_BACKEND NANNOS_GPU
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
