#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec timeout 250 "$py" "$here/demo.py"
