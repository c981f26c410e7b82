#!/bin/bash
# check.sh ID [quick|thorough] [extra arguments]: run one check from /verif.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null
export VERIF_TIER=$TIER PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python run_check.py "$ID" "$@"
