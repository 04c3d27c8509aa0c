#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/lpsym)
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../build/lpsym}
mkdir -p "$(dirname "$out")"
LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
tmp=$out.$$
g++ -std=c++17 -O2 -I$($LC --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$d/lpsym.cpp" -o "$tmp" $($LC --ldflags) $($LC --libs irreader core support) -lz3 -lgmpxx -lgmp -lpthread
mv "$tmp" "$out"
