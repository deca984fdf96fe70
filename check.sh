#!/bin/bash
# usage: ./check.sh <property> [options of the simulator]     environment: VERIF_SEED, VERIF_TIER
cd "$(dirname "$0")" || exit 2
p=$1; shift
bin=$(tools/build.sh) || exit 2
mkdir -p evidence replays
exec "$bin/sim" check "$p" --bindir "$bin" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
  --out "evidence/$p.json" --replays replays "$@"
