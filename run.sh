#!/bin/bash
# run.sh <property id>: run one check (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8 HOME="${HOME:-/root}"
export VERIF_SEED="${VERIF_SEED:-0}" VERIF_TIER="${VERIF_TIER:-quick}"
unset PYTHONPATH
id="$1"
exec /opt/venv/bin/python -W ignore "checks/$(echo "$id" | tr 'A-Z' 'a-z').py"
