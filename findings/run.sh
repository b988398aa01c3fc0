#!/bin/bash
# Shows a finding: builds NAME.rs against the library in REPO (default /repo) and runs it.
# Exits 0 if the library behaves and nonzero if the defect shows. To see a repaired defect, give
# a scratch worktree of the commit before the repair as REPO.
# usage: run.sh NAME [REPO]
set -e
here=$(cd "$(dirname "$0")" && pwd)
name=$1
repo=$(cd "${2:-/repo}" && pwd)
t=$(mktemp -d)
trap 'rm -rf "${t:?}"' EXIT
mkdir "$t/src"
cp "$here/$name.rs" "$t/src/main.rs"
cp "$here/world.rs" "$t/src/world.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "finding"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rgb-std = { path = "$repo", features = ["all"] }
rgb-invoice = { path = "$repo/invoice", features = ["serde"] }
rgb-core = { version = "0.11.0-beta.9", features = ["stl", "serde"] }
bp-core = { version = "0.11.0-beta.9", features = ["stl"] }
bp-invoice = "0.11.0-beta.9.1"
strict_encoding = "2.7.0"
strict_types = "2.7.2"
commit_verify = "0.11.0-beta.9"
amplify = "4.7.0"
nonasync = "0.1.0"
chrono = "0.4.38"
indexmap = "2.4.0"
aluvm = "0.11.0-beta.9"
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${FINDINGS_TARGET:-$t/target}"
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
cargo build --offline -q --manifest-path "$t/Cargo.toml" 2> "$t/log" || { cat "$t/log" >&2; exit 3; }
"$CARGO_TARGET_DIR/debug/finding"
