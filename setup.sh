#!/bin/sh
# builds the IR exporter and the polyhedra kernel (offline, ~6 s)
set -e
cd "$(dirname "$0")"
mkdir -p build
clang++-18 -O1 -std=c++17 engine/irdump.cpp -o build/irdump.tmp -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/irdump.tmp build/irdump
clang++-18 -O2 -std=c++17 -shared -fPIC engine/poly.cpp -o build/libpoly.so.tmp
mv build/libpoly.so.tmp build/libpoly.so
