#!/bin/bash
# Nothing to build: checks are Python and import /repo in place. Verifies the tool chain is there.
cd "$(dirname "$0")" || exit 2
PYTHONPATH=/repo:$PWD TF_CPP_MIN_LOG_LEVEL=3 /opt/venv/bin/python - <<'P'
import torch, tensorflow, numpy
import mc.core
print('torch', torch.__version__, 'tensorflow', tensorflow.__version__)
P
