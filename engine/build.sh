#!/bin/bash
# builds the symbolic execution engine into $1 (default /verif/.build/vpsym)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../.build/vpsym}; mkdir -p "$(dirname "$out")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
clang++ -O2 -std=c++17 -w "$here/vpsym.cpp" -I/usr/lib/llvm-18/include -I$Z/include -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -o "$out.tmp.$$"
mv "$out.tmp.$$" "$out"
