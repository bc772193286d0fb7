#!/bin/bash
# check.sh <PROPERTY> quick|thorough     run one check
# check.sh --replay <file>               re-execute a recorded run
# check.sh --selftest [ids...]           prove determinism of the simulator
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${SIM_HASHSEED:-0}" MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH MAVLINK_IGNORE_CRC MAVNATIVE_FORCE MAVNATIVE_TESTING MAVLINK20 MAVLINK09 MDEF
cd "$here" && exec /opt/venv/bin/python -m sim.run "$@"
