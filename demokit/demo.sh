#!/bin/sh
# run with cwd at the root of the source tree, after the build
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/arki-demo-build-XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O0 -I"$r" -I"$r/_build" -I"$d" $(pkg-config --cflags sqlite3 2>/dev/null) \
    "$d/demo.cc" -o "$t/demo" -L"$r/_build/arki" -larkimet -Wl,-rpath,"$r/_build/arki" -lpthread || exit 98
timeout 120 "$t/demo"
