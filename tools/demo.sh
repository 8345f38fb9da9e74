#!/bin/bash
# Builds demo.cc against the libraries in ./_build and runs it: exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
libs=$(ls _build/lib/*.so | grep -v test_plugin | sed 's#.*/lib#-l#;s#\.so$##' | tr '\n' ' ')
g++ -std=c++17 -w -Iinclude -Isrc -Itest -I. -I/usr/include/eigen3 "$d/demo.cc" -L_build/lib $libs -lyaml-cpp -lpthread \
  -Wl,-rpath,"$PWD/_build/lib" -Wl,--allow-shlib-undefined -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
