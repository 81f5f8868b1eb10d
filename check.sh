#!/bin/bash
# ./check.sh <PROPERTY> [options]: one check of MANIFEST.json, run against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/symbf-mpl"
exec /opt/venv/bin/python -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symbf.main import main
sys.exit(main(sys.argv[1:]))' "$@"
