#!/bin/bash
# Nothing to compile: the checks import the Python sources of /repo directly.  Sanity check of the interpreters only.
set -e
export HAMILTON_AUTOLOAD_EXTENSIONS=0 HAMILTON_TELEMETRY_ENABLED=false PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")"
PYTHONPATH=/repo /opt/venv/bin/python -c "import hamilton.driver"
chmod +x check
echo setup ok
