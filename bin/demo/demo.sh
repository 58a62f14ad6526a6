#!/bin/bash
# Runs demo.rs (with table.rs in front) as a test of hudi-core in the current directory (the repository).
D=$(dirname "$(realpath "$0")"); R=$PWD; N=hv_demo
trap 'rm -f "$R/crates/core/tests/$N.rs"' EXIT
cat "$D/table.rs" "$D/demo.rs" > "$R/crates/core/tests/$N.rs"
# the environment of the build, so that nothing but this test is compiled
env -i HOME=/root LANG="${LANG:-C.UTF-8}" PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu \
  CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$R/target" PYTHONDONTWRITEBYTECODE=1 \
  cargo test --offline --workspace --all-features --test "$N" -- --nocapture
