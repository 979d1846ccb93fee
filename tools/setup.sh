#!/bin/bash
# Builds the extractor and the harness workspace (each check also does this itself when needed).
set -e
cd "$(dirname "$0")/.."
V=$PWD
mkdir -p build evidence
RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=$PWD/build/vx RUSTFLAGS=-Awarnings cargo build --offline -q --manifest-path vx/Cargo.toml
python3 rt/sync.py build/rt "${VERIF_REPO:-/repo}"
(cd build/rt && VX_REPO="${VERIF_REPO:-/repo}" RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=$V/build/rt-target CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build --offline -q --bins --keep-going) || echo "setup: some harness did not build here; its check will say so"
exit 0
