#!/bin/bash
# Builds what the checks need from committed files; idempotent.
cd "$(dirname "$0")" || exit 3
mkdir -p build evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m kzmon.ref || exit 3
exit 0
