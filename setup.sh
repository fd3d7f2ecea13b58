#!/bin/bash
# builds the fact extractor (clang-based) into build/
set -e
cd "$(dirname "$0")"
mkdir -p build
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include \
    -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    tool/hx.cc -o build/hx.new.$$ \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/hx.new.$$ build/hx
