#!/bin/bash
# Builds every check binary from the committed files (offline).
set -eu
cd /verif/harness
. ./env.sh
mkdir -p /verif/evidence
cargo +stable build --offline --quiet --bins
(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32) > "$CARGO_TARGET_DIR/.repo-hash"
