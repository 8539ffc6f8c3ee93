#!/bin/bash
# usage: run.sh ID | run.sh --replay FILE     (VERIF_SEED, VERIF_TIER; VERIF_REPO for a scratch copy)
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONSTARTUP PYTHONINSPECT
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
# never read a stale bytecode cache of /repo
export PYTHONPYCACHEPREFIX=/nonexistent/verif
exec /opt/venv/bin/python -B check.py "$@"
