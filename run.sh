#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--replay file]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$here:/repo"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.run "$@"
