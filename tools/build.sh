#!/bin/bash
# Builds the AST front end into /verif/build (idempotent).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
src="$V/analyzer/astdump.cpp"; out="$V/build/astdump"
if [ ! -x "$out" ] || [ "$src" -nt "$out" ]; then
  tmp="$out.$$"
  /usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$src" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$tmp" "$out"
fi
