#!/bin/bash
# builds the extraction tool and the harness (the checks build what is missing themselves)
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
unset CARGO_TARGET_DIR
set -e
cargo build --release --offline -q --manifest-path tools/vx/Cargo.toml
CARGO_INCREMENTAL=0 cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir harness/target
CARGO_INCREMENTAL=0 RUSTFLAGS="" cargo build --offline --locked -q --manifest-path /repo/Cargo.toml -p stuart --all-features --target-dir harness/target-bin
