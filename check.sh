#!/bin/bash
# bash check.sh <property> [options]   (see rvm/check.py)
cd "$(dirname "$0")" || exit 3
unset PYTHONPATH LD_PRELOAD
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/venv/bin/python -W ignore -m rvm.check "$@"
