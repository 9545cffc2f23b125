#!/bin/bash
# Builds main.rs against /repo's protox and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf "${work:?}"' EXIT
cp -r "$here/demo/." "$work/" && mkdir "$work/scratch" || exit 2
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo build --offline -q >"$work/log" 2>&1 || { cat "$work/log"; exit 2; }
cd "$work/scratch" && timeout 60 "$work/target/debug/demo"
