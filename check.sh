#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--case NAME] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/pypyenv/bin/python -W ignore mon/check.py "$@"
