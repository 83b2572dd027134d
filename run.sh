#!/bin/sh
# run.sh PROPERTY [--replay FILE]: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.run "$@"
