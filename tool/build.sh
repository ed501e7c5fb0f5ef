#!/bin/bash
# Builds /verif/build/mpart-extract (idempotent; rebuilt when extract.cpp is newer).
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="$here/../build"; mkdir -p "$out"
if [ -x "$out/mpart-extract" ] && [ ! "$here/extract.cpp" -nt "$out/mpart-extract" ]; then exit 0; fi
tmp="$out/mpart-extract.$$"
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out/mpart-extract"
