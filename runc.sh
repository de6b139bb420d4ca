#!/bin/bash
# runc.sh PROP [args]: run the run-time contracts of one property by hand
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec /opt/pypyenv/bin/python -W ignore "$(dirname "$0")/conc/run.py" "$@"
