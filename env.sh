export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never
