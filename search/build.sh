#!/bin/bash
# build.sh OUTDIR [REPO]: the search/replay program with /repo's current sources (ASan, UBSan, asserts on)
set -e
D=$(dirname "$(realpath "$0")"); O=$1; R=${2:-/repo}; mkdir -p "$O"
FL="-std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I$R/include -I$R/include/public"
pids=()
for f in $(find "$R/src" -name '*.cpp'); do g++ $FL -c "$f" -o "$O/$(echo ${f#$R/} | tr / _).o" & pids+=($!); done
if [ ! -f "$O/search.o" ]; then g++ $FL -c "$D/search.cpp" -o "$O/search.o" & pids+=($!); fi
for p in "${pids[@]}"; do wait $p; done
g++ -fsanitize=address,undefined "$O"/*.o -o "$O/search"
