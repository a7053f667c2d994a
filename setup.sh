#!/bin/bash
# Nothing to build: pure Python. Verifies that the interpreter, the library and the runner load.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VF_REPO:-/repo}:$PWD/vf" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d /tmp/vf.XXXXXX)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c "import core, cal, gen, obs, hist, portfolyo" >/dev/null; rc=$?
rm -rf "$MPLCONFIGDIR"
mkdir -p evidence
exit $rc
