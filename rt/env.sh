export RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=/verif/build/rt-target CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
