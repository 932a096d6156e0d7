#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 9
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore check.py "$@"
