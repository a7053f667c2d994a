#!/bin/bash
# usage: run.sh <property-id> [quick|thorough] [--seed=N] [--only=SCENARIO] [--replay=FILE]
# Runs the check of one property against the working tree in /repo (pure Python: imported
# from there, without writing byte code into it).
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/vf.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
export PYTHONPATH="${VF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
export MPLBACKEND=Agg MPLCONFIGDIR="$D" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 VF_SCRATCH="$D"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" vf/main.py "$@"
