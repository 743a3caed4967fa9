#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out/o"
CXX="g++ -std=c++17 -O2 -g1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr solver decode engine; do $CXX -c $here/$f.cc -o $out/o/$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ $out/o/{expr,solver,decode,engine}.o -o $out/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv $out/symex.tmp $out/symex
