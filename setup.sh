#!/bin/bash
# builds the IR dumper
set -e
cd "$(dirname "$0")"
mkdir -p build
clang++ -O1 -w lib/irdump.cpp -o build/irdump.tmp -I/usr/lib/llvm-18/include -std=c++17 -fno-exceptions -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/irdump.tmp build/irdump
