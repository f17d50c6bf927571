#!/bin/bash
# usage: ./run.sh C01 [quick|thorough] [--sub NAME] [--replay FILE]
cd "$(dirname "$0")"
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
SCR=$(mktemp -d /tmp/vpbt.XXXXXX)
export MPLCONFIGDIR="$SCR" HYPOTHESIS_STORAGE_DIRECTORY="$SCR" HOME="$SCR" VERIF_SCRATCH="$SCR"
export PYTHONPATH="$PWD/lib"
id="$1"; shift
f=$(ls checks/$(echo $id | tr A-Z a-z)_*.py)
(cd "$SCR" && exec /opt/venv/bin/python -u "$OLDPWD/$f" "$@")
rc=$?
rm -rf "$SCR"
exit $rc
