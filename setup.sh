#!/bin/bash
# Builds every harness once, so that the checks start warm where the build output is kept.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
rc=0
for h in $(awk '$2!="ts" {print $2}' "$here/harness/map.txt" | sort -u); do
    cargo build --offline --locked --manifest-path "$here/harness/$h/Cargo.toml" 2>&1 | tail -3
    [ "${PIPESTATUS[0]}" = 0 ] || rc=1
done
exit $rc
