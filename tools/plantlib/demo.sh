#!/bin/sh
# run with the repository as working directory; exit 0 = the property holds
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here" exec /opt/venv/bin/python "$here/demo.py"
