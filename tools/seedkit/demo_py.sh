#!/bin/bash
# Builds the library and the Python module of the current directory (/repo) into an interpreter, with the stand-in for
# pybind11 beside this file, and runs demo.py in it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(python3 -c 'import sysconfig; print(sysconfig.get_path("include"))')
LIB=$(python3 -c 'import sys; print("-lpython%d.%d" % sys.version_info[:2])')
CXX="g++ -std=c++17 -O0 -w -pthread -DDOCTEST_CONFIG_DISABLE @FLAGS@ -I$R/include -I$R/src -I$D -I$D/pyshim -isystem /usr/include/eigen3 -isystem $INC"
srcs="$D/pymain.cc $D/valshim.cc $R/src/python/symbolic.cc $(ls "$R"/src/*.cc "$R"/src/planning/*.cc "$R"/src/utils/*.cc | grep -v doctest.cc)"
printf '%s\n' $srcs | xargs -P 8 -I{} sh -c "$CXX -c {} -o $T/\$(basename {} .cc)_\$(basename \$(dirname {})).o" || exit 3
$CXX "$T"/*.o $LIB -o "$T/demo" || exit 3
cd "$T" && PYTHONDONTWRITEBYTECODE=1 PYTHONMALLOC=malloc ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo "$D/demo.py"
