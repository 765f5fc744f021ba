#!/bin/bash
# Runs the repository's own test suites (ide-tests, syntax, ...) against the dependency shims, in a scratch copy.
# This is how the shims were validated; no registered check uses it.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/env.sh"
W=$(mktemp -d /tmp/fidelity.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo/crates /repo/Cargo.toml "$W/"
rm -rf "$W/crates/ide-tests-corpus" "$W/crates/aptos-language-server/tests"
sed -i 's/members = .*/members = ["crates\/*"]/; /dissimilar.opt/d; /miniz_oxide.opt/d; s/^salsa.opt/salsa.opt/' "$W/Cargo.toml"
python3 "$here/tools/mklock.py" --workspace "$W"
cd "$W"
CARGO_TARGET_DIR=${FID_TARGET:-$W/target} cargo test --offline --no-fail-fast "$@"
