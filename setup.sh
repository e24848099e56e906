#!/bin/bash
# nothing is built ahead: every check imports /repo's working tree; this only verifies that the tools are present
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python -W ignore -c "from vf import boot, sx; import z3; print('z3', z3.get_version_string())" && exec /opt/venv/bin/python -W ignore tools/selftest_cal.py
