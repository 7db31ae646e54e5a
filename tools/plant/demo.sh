#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -w -O1 -g -I include -I _build/include -I lib -I _build/lib -I "$d" "$d/demo.cpp" -o "$t/demo" \
    _build/lib/libstreamsstatic.a -lz -lbz2 -llzma -lpthread || exit 3
cd "$t" && timeout 120 ./demo "$t"
