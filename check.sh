#!/bin/bash
# check.sh <property> <tier>: runs one check against /repo's working tree (pure Python: imported fresh, no bytecode)
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/pycache VERIF_TIER="$2"
exec python3-vt -W ignore run.py "$1" --tier "$2"
