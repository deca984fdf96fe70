#!/bin/bash
# Builds the simulator and the code under test from /repo's working tree. Prints the directory of the results.
# usage: tools/build.sh [all]
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
repo=$(cd "$here/../repo" && pwd)
key=$(cat "$here/simrt/simrt.c" "$here/simrt/simrt.h" "$here/tools/rustc_wrap.sh" <(echo "$repo") | sha256sum | cut -c1-12)
out=$here/target/$key
mkdir -p "$out/bin"
exec 9>"$out/lock"
flock 9
export SIMRT_OBJ=$out/simrt.o RUSTC_WRAPPER=$here/tools/rustc_wrap.sh CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC
[ -f "$out/simrt.o" ] || { gcc -O2 -fno-strict-aliasing -Wall -c "$here/simrt/simrt.c" -o "$out/simrt.o.new" && mv "$out/simrt.o.new" "$out/simrt.o"; }
cargo build -q --release --offline --locked --manifest-path "$here/sim/Cargo.toml" --target-dir "$out/sim" 2>"$out/sim.log" & a=$!
cargo build -q --release --offline --manifest-path "$repo/Cargo.toml" --target-dir "$out/repo" -p ripdlt -p dd_dlt 2>"$out/repo.log" & b=$!
ok=0
wait $a || { ok=1; grep -E '^error' -A12 "$out/sim.log" >&2 || cat "$out/sim.log" >&2; }
wait $b || { ok=1; grep -E '^error' -A12 "$out/repo.log" >&2 || cat "$out/repo.log" >&2; }
[ $ok = 0 ] || { echo "build failed" >&2; exit 2; }
for f in sim/release/sim repo/release/ripdlt repo/release/dd_dlt; do
  cmp -s "$out/$f" "$out/bin/${f##*/}" || { cp "$out/$f" "$out/bin/.new" && mv -f "$out/bin/.new" "$out/bin/${f##*/}"; }
done
echo "$out/bin"
