#!/bin/bash
# bash check.sh <ID> [quick|thorough] | bash check.sh replay <file>
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d /tmp/vpsym.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
    OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$T" VP_SCRATCH="$T" \
    LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH="${VP_REPO_SRC:-/repo/src}"
/opt/venv/bin/python symx/main.py "$@"
