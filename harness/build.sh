#!/bin/bash
# Builds the simulator against /repo's current working tree.
cd "$(dirname "$0")/driver" || exit 3
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="-Crelocation-model=static -Awarnings"
export RUSTC_WRAPPER=/verif/harness/wrap.sh
exec cargo build --release --offline --target x86_64-unknown-linux-gnu "$@"
