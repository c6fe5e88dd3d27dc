#!/bin/bash
# dump.sh OUT.json ROOTS EXCLUDES FILE.cpp [extra clang args]: run the AST front end against the repo under analysis
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
out=$1; roots=$2; ex=$3; f=$4; shift 4
exec "$V/build/astdump" "$out" "$roots" "$ex" "$f" -- -std=gnu++17 -fopenmp -DNDEBUG -I$V/stubs/assertstub -I$R/include -I/usr/lib/llvm-18/lib/clang/18/include "$@"
