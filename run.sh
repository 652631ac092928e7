#!/bin/bash
# run.sh C01 [quick|thorough]   |   run.sh --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH=
exec /opt/venv/bin/python -m vf.main "$@"
