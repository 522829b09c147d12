#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m sx.main "$1" --tier "${2:-${VERIF_TIER:-quick}}"
