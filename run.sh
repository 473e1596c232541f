#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 -m jsa.main "$1"
