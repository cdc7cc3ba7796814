#!/bin/bash
# usage: run.sh <property id> [quick|thorough]      (or: run.sh replay <file>)
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PATH="/opt/venv/bin:$PATH"
export PYTHONPATH="$VERIF_REPO:$here"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX")" || exit 3
export VERIF_SCRATCH="$scratch" MPLCONFIGDIR="$scratch" TMPDIR="$scratch"
trap 'rm -rf -- "$scratch"' EXIT
cd "$scratch" || exit 3
/opt/venv/bin/python -m vh "$@"
exit $?
