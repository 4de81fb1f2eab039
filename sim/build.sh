#!/bin/bash
# build.sh OUTDIR [REPO]: builds the simulator against REPO's working tree (default /repo) into OUTDIR.
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=${2:-/repo}; mkdir -p "$out"
CXX=${CXX:-g++}; FLAGS="-std=c++17 -O1 -g1 -D_GLIBCXX_ASSERTIONS -DBOOST_LOG_DYN_LINK=1 -I$repo/include -I$here -I/usr/include/eigen3 -w"
rm -f "$out"/*.o "$out"/simcheck "$out"/*.log
pids=(); srcs=("$here/lib_learner.cc" "$here"/s_*.cc "$here/lib_oracle.cc" "$here/lib_mem.cc" "$here/lib_ops.cc" "$repo"/src/*.cc "$here/core.cc" "$here/driver.cc")
for s in "${srcs[@]}"; do o="$out/$(basename "$s" .cc).o"; while [ "$(jobs -rp | wc -l)" -ge 8 ]; do wait -n || true; done; ( $CXX $FLAGS -c "$s" -o "$o" > "$o.log" 2>&1 || { echo "compile error in $s" >&2; head -c 3000 "$o.log" >&2; } ) & done
wait
for s in "${srcs[@]}"; do [ -f "$out/$(basename "$s" .cc).o" ] || exit 3; done
$CXX -o "$out/simcheck" "$out"/*.o -Wl,--wrap=malloc -lboost_log -lboost_system -lboost_thread -lpthread
