#!/bin/bash
# Builds the fact extractor into $1 (default: /verif/.build/extract).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/extract}
mkdir -p "$(dirname "$out")"
P=/usr/lib/llvm-18
/usr/bin/g++ -O1 -w -DNDEBUG -std=c++17 -fno-rtti -I$P/include \
  -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
  "$here/extract.cpp" -o "$out.tmp.$$" $P/lib/libclang-cpp.so.18.1 \
  /usr/lib/x86_64-linux-gnu/libLLVM.so.18.1 && mv "$out.tmp.$$" "$out"
