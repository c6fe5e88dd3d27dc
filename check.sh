#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/py" && exec /usr/bin/python3 check.py "$@"
