#!/bin/bash
# Builds the IR exporter (the only compiled part of the machinery).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
LC=llvm-config-18; command -v $LC >/dev/null || LC=llvm-config
t=build/export.$$
clang++ -O1 -w engine/export.cpp -o $t $($LC --cxxflags --ldflags) -lLLVM-18
mv -f $t build/export
echo "exporter built"
