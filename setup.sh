#!/bin/bash
# Nothing has to be built; fail early if a tool is missing.
cd "$(dirname "$0")" || exit 2
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import vh.boot, hypothesis, bversion.server' && command -v gcc >/dev/null
