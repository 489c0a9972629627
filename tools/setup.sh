#!/bin/bash
# Builds every explorer and the command line tool, offline.
cd "$(dirname "$0")/.." || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target evidence
cargo build --release --offline --manifest-path mc/Cargo.toml --bins --target-dir target || exit 1
cargo build --release --offline --manifest-path cli/Cargo.toml --target-dir target/cli || exit 1
find /repo/layout/src /repo/src /repo/layout/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum >target/stamp
