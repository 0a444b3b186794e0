#!/bin/bash
# ./check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -B harness/run.py "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"}
