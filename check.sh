#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more arguments of run_check.py]
# Monitors the real code of /repo and rewrites evidence/PROPERTY.json.
cd "$(dirname "$(realpath "$0")")" || exit 2
ID=${1:?usage: check.sh PROPERTY [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
SCRATCH=$(mktemp -d) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" HOME="$SCRATCH" TMPDIR="$SCRATCH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCRATCH/pyc" PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONNOUSERSITE=1
# As in the test suite: numpy's AVX512 sorts order ties differently.
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python run_check.py "$ID" --tier "$TIER" "$@"
