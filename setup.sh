#!/bin/bash
# nothing to build: the checks import dice_calc from /repo's working tree.  Verify the interpreter and the reference model.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "lib"); import ref, mc'
