#!/bin/bash
# determinism.sh: the same seed gives the same event-log digest twice and with other worker counts
for p in ${@:-C01 C03 C13 C19 C24 C25}; do
  a=""; for w in 8 8 3 1; do
    d=$(RUST_BACKTRACE=0 /verif/target/debug/psim check --prop $p --runs 800 --seed 5 --workers $w --root /tmp/psim-det 2>/dev/null | grep -o "digest.*")
    a="$a $d"; done
  echo "$p$a" | sed 's/digest//g'
done
rm -rf /tmp/psim-det
