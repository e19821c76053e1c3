#!/bin/sh
# bc.sh in.cpp out.bc : compile a harness against /repo's working tree to bitcode
set -e
V=$(dirname "$0")/..
NAMES=
if grep -q VH_LOOP "$1"; then NAMES=-fno-discard-value-names; fi
clang++-18 -std=c++20 -O0 -Xclang -disable-O0-optnone $NAMES -D_GLIBCXX_EXTERN_TEMPLATE=0 -I${REPO:-/repo}/include -I$V/harness -c -emit-llvm -w "$1" -o "$2.t"
if [ -n "$NAMES" ]; then ${ARV:-$V/engine/arv} "$2.t" --mark "$2.m"; mv "$2.m" "$2.t"; fi
opt-18 -passes='function(sroa,early-cse,simplifycfg)' "$2.t" -o "$2"; rm -f "$2.t"
