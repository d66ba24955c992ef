#!/bin/bash
# Builds the library sources of the current directory (/repo) with demo.cc and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CXX="g++ -std=c++17 -O0 -w -pthread -DDOCTEST_CONFIG_DISABLE @FLAGS@ -I$R/include -I$R/src -I$D -isystem /usr/include/eigen3"
srcs="$D/demo.cc"
if [ -f "$D/valshim.cc" ]; then
  srcs="$srcs $D/valshim.cc $(ls "$R"/src/*.cc "$R"/src/planning/*.cc "$R"/src/utils/*.cc | grep -v doctest.cc)"
fi
printf '%s\n' $srcs | xargs -P 8 -I{} sh -c "$CXX -c {} -o $T/\$(basename {} .cc)_\$(basename \$(dirname {})).o" || exit 3
$CXX "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
