#!/bin/bash
# Nothing is compiled: the checks are Python and read /repo on every run.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/work
test -x /opt/venv/bin/python && test -x /opt/veriftools/pyvenv/bin/python
PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python -c "import z3"
echo ok
