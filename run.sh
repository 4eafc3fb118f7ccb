#!/bin/bash
# run.sh Cxx [quick|thorough]   or   run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B mc/main.py "$@"
