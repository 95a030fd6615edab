#!/bin/bash
# usage: bash /verif/check.sh <property id> [--tier=quick|thorough] [--replay=FILE] [--sub=a,b]
# Builds nothing but fresh bytecode: every run compiles /repo/src from its current
# working tree (PYTHONPYCACHEPREFIX points at an empty scratch folder).
HERE=$(cd "$(dirname "$0")" && pwd)
SRC=${VERIF_SRC:-/repo/src}
SCRATCH=$(mktemp -d)
trap 'rm -rf "$SCRATCH"' EXIT
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPYCACHEPREFIX=$SCRATCH/pyc PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYKEOPS_VERBOSE=0 HOME=$SCRATCH
mkdir -p "$SCRATCH/keops"
[ -d /opt/keops-cache/template ] && cp -r /opt/keops-cache/template/. "$SCRATCH/keops/" 2>/dev/null
export KEOPS_CACHE_FOLDER=$SCRATCH/keops TMPDIR=$SCRATCH MPLCONFIGDIR=$SCRATCH
export PYTHONPATH=$HERE:$SRC
if [ "$SRC" = /repo/src ] && [ ! -f /repo/src/probnum/_version.py ]; then
    printf 'version = "1.0.0"\n' > /repo/src/probnum/_version.py
fi
cd "$HERE"
/opt/venv/bin/python -m pbt.runner "$@" 2> >(grep -a -v KeOps >&2)
exit $?
