#!/bin/bash
# exit 0 if the behaviour is right, 1 if it is not; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
[ -e "$here/hook" ] && export RUSTFLAGS="--cfg octane_verif"
mkdir -p "$t/src"
cp "$here/main.rs" "$here/common.rs" "$t/src/"
cp "$here/Cargo.lock" "$t/"
with='features = ["extended_queries"]'
[ -e "$here/lean" ] && with="default-features = false"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
octane = { path = "$repo", $with }
octane_http = { path = "$repo/octane_http" }
octane_macros = { path = "$repo/octane_macros" }
tokio = { version = "0.3", features = ["net", "io-util", "rt-multi-thread"] }
[workspace]
T
cd "$t" && cargo build -q --offline || exit 2
timeout 100 "$t/target/debug/demo"
