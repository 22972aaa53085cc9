#!/bin/bash
# nothing to build: the code under test is pure Python, it is imported from /repo as it is
cd "$(dirname "$0")" && exec env PYTHONPATH=".:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 \
  "$([ -x /opt/venv/bin/python ] && echo /opt/venv/bin/python || echo python3)" -W ignore -c 'import vlib.core, vlib.drive; print("ready")'
