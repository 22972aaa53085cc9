#!/bin/bash
# run one check: run.sh <ID> [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export PYTHONPATH="$here:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export LC_ALL=C.UTF-8 PYTHONUTF8=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" && exec "$py" -W ignore -m vlib.main "$id" "$@"
