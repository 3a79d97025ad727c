#!/bin/bash
# Builds the syntax tree exporter into the ignored build folder (if it is missing or older than its source).
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
out="$here/build/cxdump"; src="$here/tools/cxdump.cc"
if [ ! -x "$out" ] || [ "$src" -nt "$out" ]; then
    tmp="$out.$$"
    g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
        "$src" -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18
    mv "$tmp" "$out"
fi
