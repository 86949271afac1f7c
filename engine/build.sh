#!/bin/bash
# builds the symbolic executor into $1 (default: build/symex)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="$(realpath -m "${1:-$D/../build/symex}")"; mkdir -p "$(dirname "$O")"; cd "$D"
g++ -O2 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS engine.cpp -o "$O.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 /usr/lib/libminisat.a -lpthread -lz
mv "$O.tmp$$" "$O"
