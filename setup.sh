#!/bin/sh
# Nothing to build: the checks are Python and load /repo's sources directly.  Check the interpreter.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "import sys; assert sys.version_info >= (3, 12); import numpy, galois, sympy, diskcache; print('setup ok')"
