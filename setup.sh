#!/bin/bash
# nothing to build: the checks import the code from /repo when they run
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" - "$here" <<'P'
import ast, glob, sys
for f in glob.glob(sys.argv[1] + "/mc/*.py") + glob.glob(sys.argv[1] + "/checks/*.py"):
    ast.parse(open(f).read(), f)
print("checks parse")
P
