#!/bin/bash
# usage: bash check.sh ID [args]; run from /verif. Uses the interpreter /repo is built with.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vf "$@"
