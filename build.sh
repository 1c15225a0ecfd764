#!/bin/bash
# builds the syntax-tree exporter (idempotent; output in a git-ignored folder)
set -e
cd "$(dirname "$0")"
mkdir -p build
h=$(sha256sum extractor/extract.cpp | cut -c1-16)
out=build/extract-$h
if [ -x "$out" ]; then echo "$PWD/$out"; exit 0; fi
LL=/usr/lib/llvm-18
clang++-18 -std=c++17 -O1 -fno-rtti -I$LL/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS extractor/extract.cpp -o "$out.$$" \
  $LL/lib/libclang-cpp.so.18.1 -L$LL/lib -lLLVM-18
mv "$out.$$" "$out"
echo "$PWD/$out"
