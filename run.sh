#!/bin/bash
# Builds the simulator against /repo's working tree and runs it: run.sh build | check ID [--tier T] | replay FILE | show ID RUN
cd /verif/sim || exit 2
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
mkdir -p /verif/work /verif/evidence
build() { # target folder, flags
  local dir=$1
  shift
  if ! CARGO_TARGET_DIR=$dir cargo build --release --offline --quiet "$@" 2>/verif/work/build-$$.log; then
    cat /verif/work/build-$$.log >&2
    rm -f /verif/work/build-$$.log
    exit 2
  fi
  rm -f /verif/work/build-$$.log
}
# The module loader is part of dice-runtime, which compiles only with its guarded hook: it gets a build of its own.
build_loader() { RUSTFLAGS="-Awarnings --cfg dice_sim" build /verif/target-loader --features loader; }
# Threads are simulated in a build in which every branch and memory access of the code under test is a point to switch at.
build_threads() { RUSTC_WRAPPER=/verif/tools/rustc-cov build /verif/target-threads --features threads --target x86_64-unknown-linux-gnu; }
# The interpreter of dice-runtime, included in a crate that supplies what it imports.
build_interp() { build /verif/target-interp --features interp; }
replays() { [ "$1" = replay ] && grep -q "\"property\": *\"$3\"" "$2"; }
needs() { # command line, properties
  local p
  for p in $3; do { [ "$2" = "$p" ] || replays "$1" "$2" "$p"; } && return 0; done
  return 1
}
if [ "$1" = build ]; then
  build /verif/target
  build_loader
  build_threads
  (build_interp) || true
elif needs "$1" "$2" "C12"; then
  build_threads
  exec /verif/target-threads/x86_64-unknown-linux-gnu/release/dice-sim "$@"
elif needs "$1" "$2" "C15 C20 C23"; then
  build_loader
  exec /verif/target-loader/release/dice-sim "$@"
elif needs "$1" "$2" "C19 C24"; then
  build_interp
  exec /verif/target-interp/release/dice-sim "$@"
else
  build /verif/target
  exec /verif/target/release/dice-sim "$@"
fi
