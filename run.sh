#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] ...: one check, in the environment of the build.
. /opt/vp/env.sh
export OMP_NUM_THREADS=1 OMP_WAIT_POLICY=passive OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export PBT_HOME="$(cd "$(dirname "$0")" && pwd)"
exec python "$PBT_HOME/run_check.py" "$@"
