#!/bin/bash
# ./check.sh PROPERTY [--tier quick|thorough] [--replay FILE] ...
# Runs one check against /repo's working tree (pure Python: nothing to build, imported in place).
cd "$(dirname "$0")" || exit 2
REPO=${TNN_REPO:-/repo}
export PYTHONPATH="$REPO:$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= HF_HUB_OFFLINE=1
export LOGLEVEL=CRITICAL PYTHONWARNINGS=ignore TF_ENABLE_ONEDNN_OPTS=0
unset CI
exec /opt/venv/bin/python -m mc.main "$@"
