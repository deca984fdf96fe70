#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test with edge, load and store callbacks (the simulator's step
# counter, preemption points and coverage) and links the simulator runtime into every executable that runs it.
rustc=$1; shift
san=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
     -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
prev=; name=; bin=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  [ "$prev" = --crate-type ] && [ "$a" = bin ] && bin=1
  prev=$a
done
case $name in
  matchit|rapiddlt|sut) exec "$rustc" "$@" "${san[@]}";;
  ripdlt|dd_dlt) exec "$rustc" "$@" "${san[@]}" "-Clink-arg=$SIMRT_OBJ" -Clink-arg=-rdynamic;;
  sim) [ -n "$bin" ] && exec "$rustc" "$@" "-Clink-arg=$SIMRT_OBJ" -Clink-arg=-rdynamic;;
esac
exec "$rustc" "$@"
