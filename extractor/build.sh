#!/bin/bash
# Builds the fact extractor into /verif/build/extract (only when missing or out of date).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
mkdir -p "$out"
if [ -x "$out/extract" ] && [ "$out/extract" -nt "$here/extract.cc" ]; then exit 0; fi
tmp="$out/extract.$$"
g++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
  "$here/extract.cc" -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 \
  -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out/extract"
