#!/bin/bash
# Builds the clang fact exporter into /verif/.build (offline; needs the installed LLVM 18 development files)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/../.build"
mkdir -p "$out"
if [ "$out/dpx" -nt "$here/dpx.cpp" ]; then exit 0; fi
L=/usr/lib/llvm-18
clang++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/dpx.cpp" -o "$out/dpx.tmp" -L$L/lib -Wl,-rpath,$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/dpx.tmp" "$out/dpx"
