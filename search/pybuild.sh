#!/bin/bash
# pybuild.sh OUTDIR [REPO]: the Python module with /repo's current sources, in OUTDIR
set -e
O=$1; R=${2:-/repo}; PY=/opt/vp/venv/bin/python; mkdir -p "$O"
X=$(python3 -c "import sys; sys.path.insert(0, '$(dirname "$(realpath "$0")")/../tool'); import astload; print(' '.join(astload.version_dir('$R', '$O')))")
# UBSan traps make undefined behaviour in the bindings a crash
FL="-std=c++17 -O1 -g1 -w -fPIC -fvisibility=hidden -fsanitize=undefined -fsanitize-undefined-trap-on-error -D_GLIBCXX_ASSERTIONS -I$R/include -I$R/include/public $($PY -m pybind11 --includes)"
pids=()
for f in $(find "$R/src" -name '*.cpp') "$R/bindings/python/python-bindings.cpp"; do clang++ $X $FL -c "$f" -o "$O/$(echo ${f#$R/} | tr / _).o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
clang++ -shared "$O"/*.o -o "$O/pybiginteger.so"
