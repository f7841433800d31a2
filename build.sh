#!/bin/sh
# Builds the harness, offline; with `all`, or for C26, also the programs
# with other feature configurations.
set -e
root="$(cd "$(dirname "$0")" && pwd)"
cd "$root/harness"
cargo build --release --offline
case "$*" in
*C26* | all)
    for f in json cbor none; do
        cd "$root/features/$f"
        CARGO_TARGET_DIR="$root/features/target" cargo build --release --offline
    done
    ;;
esac
