#!/bin/bash
# usage: run_check.sh PROPERTY [--replay FILE | --sim N | --selftest N]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -m dst.main "$@"
