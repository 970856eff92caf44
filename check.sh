#!/bin/sh
exec /opt/venv/bin/python -B "$(dirname "$0")/check.py" "$@"
