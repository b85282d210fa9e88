#!/bin/bash
# Builds the program beside this file against /repo and runs it: 0 if the property holds there, 1 if not.
set -e
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/repo/target
T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
cp -r "$D/crate" "$T/crate"
cp /repo/opsqueue/opsqueue_example_database_schema.db "$T/schema.db"
export DATABASE_URL="sqlite://$T/schema.db" TMPDIR="$T"
cd "$T/crate"
cargo build --offline 2>"$T/build.log" || { tail -40 "$T/build.log"; exit 3; }
timeout 200 "$CARGO_TARGET_DIR/debug/opsq-demo" "$T"
