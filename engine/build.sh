#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build-engine)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/engine}
mkdir -p "$out"
LC=/usr/lib/llvm-18
for f in dom ir exec; do
  g++ -O2 -g1 -std=c++17 -w -I$LC/include -c "$here/$f.cpp" -o "$out/$f.o" &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ -o "$out/ecsym.tmp" "$out/dom.o" "$out/ir.o" "$out/exec.o" -L$LC/lib -lLLVM-18 -lz3
mv "$out/ecsym.tmp" "$out/ecsym"
