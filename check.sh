#!/bin/bash
# check.sh PROPERTY | build | replay FILE
exec python3 "$(dirname "$(readlink -f "$0")")/check.py" "$@"
