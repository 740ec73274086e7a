# Sourced by check.sh and used as setup_cmd: builds the simulator against /repo's working tree, offline.
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
mkdir -p /verif/scratch
if ! (cd /verif/sim && cargo build --offline --quiet) >/verif/scratch/build-$$.txt 2>&1; then
  grep -E -A12 '^error' /verif/scratch/build-$$.txt | head -60 >&2
  echo "check: the simulator does not build against /repo" >&2
  rm -f /verif/scratch/build-$$.txt
  false
else
  rm -f /verif/scratch/build-$$.txt
fi
