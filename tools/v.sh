#!/bin/bash
# v.sh UNIT: extract and verify one unit, human-readable.
cd /verif; mkdir -p build/v
(cd vx && RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=/verif/build/vx RUSTFLAGS=-Awarnings cargo build --offline -q) || exit 1
build/vx/debug/vx units/$1.vx --repo ${REPO:-/repo} --out build/v/$1.rs --map build/v/$1.json || exit 1
verus build/v/$1.rs --multiple-errors 6 --rlimit ${RL:-30} "${@:2}" 2>&1 | grep -v "^warning: unused\|^$" | head -${LINES_MAX:-90}
