#!/bin/bash
# cwd: the repository. Builds the library's sources with demo.cpp and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
F="-std=c++17 -O1 -w -DASIO_STANDALONE -I$repo/include -I$repo/asio/asio/include -I$here"
for f in asio_service buffer; do g++ $F -c "$repo/src/$f.cxx" -o "$w/$f.o" & done
g++ $F -c "$here/demo.cpp" -o "$w/demo.o" &
wait
g++ -o "$w/demo" "$w"/*.o -lpthread || exit 2
cd "$w" && timeout 120 ./demo
