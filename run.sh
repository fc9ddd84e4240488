#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--seed N]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m sim.runner "$@"
