#!/bin/bash
# build.sh OUT: builds the extractor (clang 18 LibTooling, already installed).
set -e
D=$(cd "$(dirname "$0")" && pwd)
clang++-18 -O1 -std=c++17 -fno-rtti -fno-exceptions "$D/extract.cc" -o "$1.tmp$$" \
  -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$1.tmp$$" "$1"
