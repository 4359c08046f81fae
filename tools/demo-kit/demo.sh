#!/bin/bash
# Runs the scripts beside this file on compiled code of /repo and compares what the host observed with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
cp -r "$here/kit" "$scratch/kit" && mkdir "$scratch/scripts" && cp "$here"/*.dm "$scratch/scripts/" || exit 3
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$scratch/target"
cd "$scratch/kit" && cargo build --offline --quiet || exit 3
timeout 60 "$scratch/target/debug/demo" "$scratch/scripts" >"$scratch/observed.txt" 2>&1
diff -u "$here/expected.txt" "$scratch/observed.txt"
