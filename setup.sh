#!/bin/bash
# Nothing is compiled: the checks import the library from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'from vf import paths; import jsgf, jsgf.ext; print(jsgf.__file__)'
