#!/bin/bash
# builds the exporter (clang front end -> JSON) from the committed source
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/exporter ] || [ exporter/exporter.cpp -nt build/exporter ]; then
    g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include exporter/exporter.cpp -o build/exporter.tmp$$ \
        /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 /usr/lib/llvm-18/lib/libLLVM-18.so
    mv build/exporter.tmp$$ build/exporter
fi
