#!/bin/bash
# builds the IR dumper into /verif/build (idempotent)
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/../build"
out="$here/../build/tedsdump"
if [ -x "$out" ] && [ "$out" -nt "$here/tedsdump.cpp" ]; then exit 0; fi
tmp=$(mktemp "$out.XXXXXX")
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) "$here/tedsdump.cpp" -o "$tmp" $(llvm-config-18 --ldflags --libs --system-libs --link-shared 2>/dev/null) -Wno-everything
chmod 755 "$tmp"; mv "$tmp" "$out"
