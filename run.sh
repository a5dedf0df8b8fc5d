#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
# Runs one model-checking check against the working tree of /repo (or $CODEPREP_REPO).
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 LC_ALL=C.UTF-8
unset XDG_CONFIG_HOME XDG_CACHE_HOME XDG_DATA_HOME PYTHONPATH
exec /opt/venv-pypy/bin/pypy3 -B "$here/mc/main.py" "$@"
