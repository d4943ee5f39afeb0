#!/bin/bash
# build.sh [FLAVOR] [TARGETS...]: sync the mirror with /repo and (re)build incrementally.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
flavor=${1:-plain}; shift || true
mkdir -p "$here/build"
exec 9>"$here/build/.lock"; flock 9
python3 "$here/tools/sync.py" /repo "$here/build/src" >"$here/build/sync.log" || exit 2
b="$here/build/$flavor"
log="$here/build/$flavor.log"
if [ ! -f "$b/build.ninja" ]; then
  cmake -S "$here" -B "$b" -G Ninja -DFLAVOR=$flavor -DCMAKE_C_COMPILER=clang-18 -DCMAKE_CXX_COMPILER=clang++-18 \
    -DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm >"$log.cmake" 2>&1 || { tail -20 "$log.cmake"; exit 2; }
fi
ninja -C "$b" -j8 "$@" >"$log" 2>&1 || { grep -A5 -E "error|FAILED" "$log" | head -40; tail -5 "$log"; exit 2; }
