#!/bin/bash
# check.sh ID [quick|thorough]      run one property check
# check.sh --replay FILE            re-run one saved failing case, without the search library
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec python3-vt -m pbt.run "$@"
