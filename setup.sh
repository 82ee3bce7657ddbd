#!/bin/bash
# Nothing to build: checks that the interpreter and the tree under test are usable.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VMON_REPO:-/repo}:$here" "$py" -B -c "import d42, vmon.runner; print('ok', d42.__file__)"
