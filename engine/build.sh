#!/bin/bash
# builds the symbolic executor: engine/build.sh OUTDIR
set -e
cd "$(dirname "$0")"; OUT=${1:-../build/engine}; mkdir -p "$OUT"
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
CXX="g++ -std=c++20 -O2 -I$Z/include"
for f in expr ir solver exec main; do if [ ! -e "$OUT/$f.o" ] || [ -n "$(find . -maxdepth 1 \( -name '*.cpp' -o -name '*.h' \) -newer "$OUT/$f.o" | head -1)" ]; then $CXX -c $f.cpp -o "$OUT/$f.o" & fi; done
wait
g++ -rdynamic -o "$OUT/symx" "$OUT"/{expr,ir,solver,exec,main}.o "$Z/lib/libz3.so" -Wl,-rpath,"$Z/lib" -ldl
