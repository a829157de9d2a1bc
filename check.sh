#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
unset PYTHONPATH
export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
