#!/bin/bash
# bash run.sh <property id> [args for the harness]   - builds the harness of that property from
# /repo's working tree and runs it. Exit status and VIOLATION line are the harness's own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
h=$(awk -v id="$id" '$1==id {print $2}' "$here/harness/map.txt")
[ -n "$h" ] || { echo "unknown property $id"; exit 2; }
. "$here/env.sh"
if [ "$h" = ts ]; then
    exec node "$here/harness/ts/run.mjs" "$@"
fi
log=$(mktemp)
if ! cargo build --offline --locked --manifest-path "$here/harness/$h/Cargo.toml" >"$log" 2>&1; then
    tail -60 "$log"
    rm -f "$log"
    echo "ERROR property=$id: the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/h-$h" "$@"
