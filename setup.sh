#!/bin/bash
# Nothing is installed or built ahead of time: the checks import /repo/src directly. This verifies that they can.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d) /opt/venv/bin/python -W ignore -c "import sorcha.sorcha, sorcha.des, sqlite3; print('ok')"
