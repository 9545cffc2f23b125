# Sourced by the other scripts: one fixed, offline tool chain.
export HOME=/root LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/target"
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
