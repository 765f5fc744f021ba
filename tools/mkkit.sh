#!/bin/bash
# mkkit.sh level deps...
set -e
. /verif/env.sh
lvl=$1; shift
k=/tmp/kit-$lvl; rm -rf $k; mkdir -p $k/demo/src; cp -r /verif/shims $k/
{ echo '[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]'
for d in "$@"; do echo "$d = { path = \"/repo/crates/$d\" }"; done
[ $lvl = ide -o $lvl = server ] && echo 'vfs = { git = "https://github.com/rust-lang/rust-analyzer.git", rev = "2026-06-08" }'
[ $lvl = server ] && echo 'lsp-server = "0.7"
serde_json = "1"
gen-lsp-types = "*"
crossbeam-channel = "0.5"'
echo '[profile.dev]
opt-level = 0
debug = false
debug-assertions = false
overflow-checks = true'; } > $k/demo/Cargo.toml
echo 'fn main(){}' > $k/demo/src/main.rs
MKLOCK_ROOT=$k python3 /verif/tools/mklock.py $k/demo
sed -i "s|$k/|../|" $k/demo/Cargo.toml
cd $k/demo && CARGO_TARGET_DIR=/tmp/kit-target cargo build --offline 2>&1 | tail -3
