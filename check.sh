#!/bin/bash
# check.sh <property> [quick|thorough] | replay <file> | build | determinism [n]
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
