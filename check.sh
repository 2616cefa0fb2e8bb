#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Runs checks/<id>.py against /repo's working tree in an environment of its own.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8} PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH JAVA_TOOL_OPTIONS
SCRATCH=$(mktemp -d) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR=$SCRATCH NUMBA_CACHE_DIR=$SCRATCH/numba MPLCONFIGDIR=$SCRATCH/mpl
export PYTHONPATH=/repo:$HERE/lib
export PYTHONWARNINGS=ignore
cd "$SCRATCH" || exit 2
/opt/venv/bin/python "$HERE/checks/$1.py" --tier "${2:-quick}" "${@:3}"
