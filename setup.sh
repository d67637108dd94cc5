#!/bin/bash
# Nothing to build: the monitors are Python and import pyzwave from /repo's working tree. Verify the interpreter can do so.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" && PYTHONDONTWRITEBYTECODE=1 "$py" -c "
import sys; sys.path.insert(0, 'mon'); import core, sim, codec; print('ok', core.REPO)"
