#!/bin/bash
# Builds the node program and its client as they are, from /repo's working tree.
set -e
ROOT=$(cd "$(dirname "$0")/../.." && pwd)
TGT=$ROOT/target/real-repo
mkdir -p "$TGT"
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ ! -f "$TGT/.repo-stamp" ] || [ "$(cat "$TGT/.repo-stamp")" != "$now" ]; then
    rm -f "$TGT/.repo-stamp"
    cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$TGT" -p vru-node -p vru-tcp -p vru-session -p vru-noise -p vru-kyber || true
    cargo build --offline --manifest-path /repo/Cargo.toml --target-dir "$TGT" -p vru-node --bins
    echo "$now" >"$TGT/.repo-stamp"
fi
