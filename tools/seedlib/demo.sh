#!/bin/bash
# Run in the dsari working tree: exit 0 if the property holds, 1 if it is broken.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec env -u DSARI_HOME PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8 "$py" -B "$here/demo.py"
