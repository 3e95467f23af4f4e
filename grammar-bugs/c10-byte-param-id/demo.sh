#!/bin/bash
# exit 0: the property holds; run in the repository's root after the build
set -eu
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t"/*; rmdir "$t"' EXIT
g++ -std=c++17 -O1 -g -I_build/tree/src "$here/demo.cpp" -L_build/tree -lsqlparser -Wl,-rpath,"$PWD/_build/tree" -pthread -o "$t/demo"
rc=0
timeout 120 "$t/demo" || rc=$?
[ $rc = 0 ] || { echo "demo failed ($rc)"; exit 1; }
