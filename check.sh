#!/bin/bash
# usage: check.sh <property id>     (cwd-independent)
here="$(cd "$(dirname "$0")" && pwd)"
"$here/tool/build.sh" || { echo "CHECK-ERROR tool build failed"; exit 3; }
exec python3 "$here/checks/run.py" "$1"
