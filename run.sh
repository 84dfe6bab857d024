#!/bin/sh
# Runs simkit with the interpreter that pymanopt is installed for.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONHASHSEED=${SIMKIT_HASHSEED:-0}
OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED OMP_NUM_THREADS OPENBLAS_NUM_THREADS MKL_NUM_THREADS
exec "${SIMKIT_PYTHON:-/opt/venv/bin/python}" -B "$here/simkit/main.py" "$@"
