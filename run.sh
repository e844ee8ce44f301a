#!/bin/bash
# run.sh <PROPERTY> : analyse /repo's current source for one property
exec python3 "$(dirname "$(realpath "$0")")/tools/check.py" "$@"
