#!/bin/bash
# usage: run.sh CHECK [quick|thorough] [--replay FILE]
# Runs checks/CHECK.py against the e2cnn in /repo's working tree (imported from source, nothing is cached).
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${E2CNN_REPO:-/repo}"
SCR="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 3
trap 'rm -rf "$SCR"' EXIT
export PYTHONPATH="$REPO:$V" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MPLBACKEND=Agg MPLCONFIGDIR="$SCR/mpl" CUDA_VISIBLE_DEVICES= HOME="$SCR" VERIF_SCRATCH="$SCR"
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
mkdir -p "$SCR/mpl" "$SCR/cwd"
cd "$SCR/cwd" || exit 3
/opt/venv/bin/python -m mc.core "$@"
