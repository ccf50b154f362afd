#!/bin/bash
# Builds the AST exporter (clang 18's libraries are part of the sandbox).
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
if [ ! -x build/export ] || [ exporter/export.cpp -nt build/export ]; then
  clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include exporter/export.cpp -o build/export.tmp -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
  mv build/export.tmp build/export
fi
