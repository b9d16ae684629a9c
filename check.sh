#!/bin/sh
# check.sh <property id> [quick|thorough] : decides one property from /repo's current source
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0
export PYTHONHASHSEED
exec python3 -m analysis.check "$@"
