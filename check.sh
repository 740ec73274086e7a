#!/bin/bash
# check.sh <property>: rebuild the simulator with /repo's current tree, then search.
# VERIF_SEED chooses the batch of runs, VERIF_TIER (quick|thorough) its size.
cd "$(dirname "$0")" || exit 4
ROOT=$PWD
. ./build.sh || exit 4
exec env RUST_BACKTRACE=0 "$ROOT/target/debug/psim" check --prop "$1" --root "$ROOT" \
  --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" --workers "$(nproc)"
