#!/bin/bash
# Builds the syntax-tree exporter from the committed source. Offline; needs only the installed LLVM 18.
set -e
cd "$(dirname "$0")"
mkdir -p build
g++ -O2 -fno-rtti $(/usr/lib/llvm-18/bin/llvm-config --cxxflags) engine/export.cpp -o build/export.tmp \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv build/export.tmp build/export
