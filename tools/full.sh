#!/bin/bash
# full.sh OUT.json : front end over the whole library
V=$(cd "$(dirname "$0")/.." && pwd)
exec "$V/tools/dump.sh" "$1" "${VERIF_REPO:-/repo}/include" third_party "$V/analyzer/tu/full.cpp" -ferror-limit=0 -I$V/stubs -I/usr/lib/x86_64-linux-gnu/openmpi/include "${@:2}"
