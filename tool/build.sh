#!/bin/bash
# builds the AST front end into $1 (default /verif/build/psdd_ir)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build/psdd_ir}
mkdir -p "$(dirname "$OUT")"
TMP="$OUT.tmp.$$"
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include psdd_ir.cpp -o "$TMP" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$TMP" "$OUT"
