#!/bin/bash
# hrun.sh ID [args]: build and run one harness, human-readable.
cd /verif; python3 rt/sync.py build/rt ${REPO:-/repo}; cd build/rt
F=""; grep -q 'feature = "priv"' /verif/rt/h/$1/main.rs && F="--features priv"
VX_REPO=${REPO:-/repo} RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=/verif/build/rt-target RUSTFLAGS=-Awarnings cargo build --offline -q -p $1 $F >/tmp/hrun.$1.log 2>&1 || { grep -E "^error" -A12 /tmp/hrun.$1.log | head -${LINES_MAX:-60}; exit 3; }
mkdir -p /tmp/hs; cd /tmp/hs; time VX_SCRATCH=/tmp/hs timeout 600 /verif/build/rt-target/debug/$1 "${@:2}" | cut -c1-1800
