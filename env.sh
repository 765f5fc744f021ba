export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
export NODE_PATH=/opt/veriftools/node/node_modules
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS
