#!/bin/sh
# ./run.sh check ID | replay FILE | list   (rebuilds from /repo's working tree)
set -u
cd "$(dirname "$0")" || exit 2
VH_ROOT="$(pwd)"
export VH_ROOT
log="$(mktemp)"
if ! ./build.sh "$@" >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "error: the build failed"
    exit 2
fi
rm -f "$log"
exec harness/target/release/vh "$@"
