#!/bin/sh
# Prebuilds the symbolic runtime and the objects of the current tree (the checks rebuild whatever changed).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3-vt tools/prebuild.py || true
exit 0
