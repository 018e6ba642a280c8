#!/bin/bash
# ./check.sh PROPERTY [--only 'group:case'] [--verbose]
# Rebuilds the monitors against /repo's working tree and runs the one that decides PROPERTY.
# exit 0: held; 1: VIOLATION line(s); 2: could not build or run; 3: inconclusive.
cd "$(dirname "$0")" || exit 2
exec python3 tools/run_check.py "$@"
