#!/bin/bash
# Nothing is built ahead of the checks: they import diffrax from /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c "
import jax, equinox, optimistix, lineax, numpy
from mc import common
print('ok')"
