#!/bin/bash
# nothing to build: the checks are Python run by /repo's interpreter; verify that it and the repository import
cd "$(dirname "$0")" && export PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg && mkdir -p evidence && PYTHONPATH="${GPYV_REPO:-/repo}:$PWD" /opt/venv/bin/python -W ignore -c 'import GPy_ABCD, gpyv.core; print("setup ok")'
