#!/bin/bash
# sweep.sh RUNS SEED [props...]: run all checks on the current build, one line each
R=$1; S=$2; shift 2
P="$@"; [ -z "$P" ] && P=$(seq -f "C%02g" 1 26)
for p in $P; do RUST_BACKTRACE=0 /verif/target/debug/psim check --prop $p --runs $R --seed $S --root /verif 2>&1 | grep -v "^Instr" | cut -c1-400 | head -${L:-8}; done
