#!/bin/bash
# usage: run.sh <property id> [--replay FILE] [--cases N] [--tier quick|thorough] [--seed N]
# Runs one check against the working tree of /repo (pure Python: nothing to compile).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VMON_REPO:-/repo}
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG="${LANG:-C.UTF-8}" VMON_REPO="$repo"
# never read stale byte code of the tree under test
export PYTHONPYCACHEPREFIX=/nonexistent/vmon-no-pycache
export PYTHONPATH="$repo:$here"
unset PYTHONHOME PYTHONSTARTUP PYTHONOPTIMIZE
cd "$here" || exit 3
exec "$py" -B -W ignore -m vmon.runner "$@"
