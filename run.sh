#!/bin/bash
# usage: ./run.sh C01 [--replay FILE | --scenario NAME --case N] [--times]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONPATH="$here:${VERIF_REPO:-/repo}"
export CHAINER_DTYPE=float32
py=/opt/venv/bin/python
f=$(ls "$here"/checks/$(echo "$id" | tr 'A-Z' 'a-z')_*.py)
exec "$py" -B "$f" "$@"
