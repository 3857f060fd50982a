#!/bin/bash
# build.sh CONFIG [PROFILE]: builds the simulation driver against /repo's current tree; prints the binary's path
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTC_WRAPPER=$here/rustc-wrap.sh
cfg=$1 prof=${2:-dev}
export RUSTFLAGS="-Awarnings"
export CARGO_TARGET_DIR=${SIM_TARGET:-$here/../target}/$cfg
cd "$here"
cargo build --offline --quiet --features "$cfg" --profile "$prof" 1>&2
d=debug; [ "$prof" = release ] && d=release
echo "$CARGO_TARGET_DIR/$d/simdrv"
