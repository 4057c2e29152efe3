#!/bin/bash
# ./check.sh <property id>   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pyvc.run "$@"
