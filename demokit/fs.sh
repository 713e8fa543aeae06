#!/bin/bash
# cwd: the repository. Builds the file log store with demo.cpp and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w -DASIO_STANDALONE -I$repo/include -I$here $repo/src/fs_log_store.cxx $repo/src/buffer.cxx "$here/demo.cpp" -o "$w/demo" -lpthread || exit 2
mkdir "$w/a" "$w/b"
cd "$w" && timeout 120 ./demo
