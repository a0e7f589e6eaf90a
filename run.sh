#!/bin/bash
# run.sh PROPERTY [quick|thorough | --replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -X utf8 vlib/runner.py "$@"
