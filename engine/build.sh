#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="$D/../build"; mkdir -p "$B"
CXX="g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
$CXX -c "$D/expr.cpp" -o "$B/expr.o" & p1=$!
$CXX -c "$D/solver.cpp" -o "$B/solver.o" & p2=$!
$CXX -c "$D/engine.cpp" -o "$B/engine.o" & p3=$!
wait $p1 && wait $p2 && wait $p3
g++ -o "$B/fsx" "$B/expr.o" "$B/solver.o" "$B/engine.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
