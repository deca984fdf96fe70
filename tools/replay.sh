#!/bin/bash
# usage: tools/replay.sh <replay file> [--trace]
# Rebuilds from /repo's working tree, repeats the recorded run and prints what it violates (exit 1), or nothing (exit 0).
f=$(realpath "$1"); shift
cd "$(dirname "$0")/.." || exit 2
bin=$(tools/build.sh) || exit 2
exec "$bin/sim" replay "$f" --bindir "$bin" "$@"
