#!/bin/bash
# Builds the extension modules (plain and sanitized) out of tree, under build/.
cd "$(dirname "$0")" || exit 1
unset PYTHONPATH LD_PRELOAD
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m rvm.build plain asan
