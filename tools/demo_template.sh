#!/bin/bash
# cwd: /repo. Compiles demo.cpp against its headers and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$T" -delete' EXIT
g++ -std=c++17 -O1 -g -march=native -I"$PWD" "$D/demo.cpp" -o "$T/demo" -lpthread -ltbb || exit 99
cd "$T" && timeout 100 ./demo
