#!/bin/bash
# Nothing to install: every check builds itself from /repo's working tree. Fails early when the toolchain cannot work offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p work/replay evidence target
export CARGO_NET_OFFLINE=true
cargo metadata --offline --locked --format-version 1 --manifest-path harness/Cargo.toml >/dev/null || exit 1
echo ready
