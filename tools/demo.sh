#!/bin/bash
# builds demo.cpp against the library built in the current directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -O1 -g -fno-access-control -I "$repo/include" -I "$repo/mdflib/src" "$here/demo.cpp" \
  "$repo/_build/mdflib/libmdf.a" -lexpat -lz -lpthread -o "$work/demo" || exit 2
cd "$work" && timeout 60 ./demo
