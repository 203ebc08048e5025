#!/bin/bash
# builds the symbolic executor: build.sh OUT
set -e
cd "$(dirname "$0")"
g++ -std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-deprecated-declarations xosym.cpp -o "$1.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$1.tmp$$" "$1"
