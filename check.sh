#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m mirv.check "$1" "${2:-quick}"
