#!/bin/bash
# builds the fact extractor into /verif/.build (offline; clang 18 libraries)
set -e
cd "$(dirname "$0")"
OUT=${1:-../.build}
mkdir -p "$OUT"
L=/usr/lib/llvm-18
CL=$(ls $L/lib/libclang-cpp.so* | head -1)
LL=$(ls $L/lib/libLLVM-18.so* $L/lib/libLLVM.so* 2>/dev/null | head -1)
SUM=$(sha256sum extract.cpp | cut -d' ' -f1)
if [ -x "$OUT/extract" ] && [ "$(cat "$OUT/extract.sum" 2>/dev/null)" = "$SUM" ]; then exit 0; fi
T=$(mktemp -d)
clang++ $($L/bin/llvm-config --cxxflags) -O1 -fno-rtti -o "$T/extract" extract.cpp "$CL" "$LL" -Wl,-rpath,$L/lib
mv "$T/extract" "$OUT/extract"
echo "$SUM" > "$OUT/extract.sum"
rmdir "$T"
