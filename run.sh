#!/bin/bash
# usage: run.sh <property> quick|thorough|replay [file]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
unset PYTHONPATH KEYCZAR_BACKEND_PATHS
exec /opt/venv/bin/python run.py "$@"
