#!/bin/bash
# usage: build.sh OUTDIR ; builds the library objects from /repo and the cluster harness
set -e
O=$1; mkdir -p $O
H=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
CXX=${CXX:-g++}
FL="-std=c++17 -O1 -g1 -w -DASIO_STANDALONE -I$REPO/include $EXTRA_CXXFLAGS"
pids=()
for f in $REPO/src/*.cxx; do case $f in *asio_service*) continue;; esac; b=$(basename $f .cxx); $CXX $FL -c $f -o $O/lib_$b.o & pids+=($!); done
for f in detsched cluster driver; do $CXX $FL -I$H -c $H/$f.cpp -o $O/$f.o & pids+=($!); done
for p in ${pids[@]}; do wait $p; done
$CXX -o $O/driver $O/driver.o $O/cluster.o $O/detsched.o $O/lib_*.o -ldl -lpthread
