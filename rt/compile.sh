#!/bin/bash
# compile.sh OUT.bc SRC [flags...]
out=$1; shift; src=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
exec clang++-18 --gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/14 -std=c++23 -O1 -Xclang -disable-llvm-passes -gline-tables-only -fno-vectorize -fno-slp-vectorize -w \
  -include "$here/prelude.h" -I"$here" "$@" -emit-llvm -c "$src" -o "$out"
