#!/bin/bash
# mkdemo.sh ID [dep-line...]: (re)creates the self-contained demonstration crate of a planted bug from the simulator
# sources; /verif/seeded/ID/main.rs is the demonstration itself.
D=/verif/seeded/$1; shift
mkdir -p "$D/demo/src"
for c in sim world; do mkdir -p $D/demo/$c/src; cp /verif/harness/$c/Cargo.toml $D/demo/$c/; cp /verif/harness/$c/src/*.rs $D/demo/$c/src/; done
cp /verif/harness/Cargo.lock $D/demo/
{ cat <<'T'
[workspace]
members = ["sim", "world"]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
[dependencies]
sim = { path = "sim" }
world = { path = "world" }
serde = "1"
serde_json = "1"
cw20 = "1.1"
cosmwasm-std = { version = "1.5", features = ["stargate", "cosmwasm_1_4"] }
astroport = { path = "/repo/packages/astroport" }
T
printf '%s\n' "$@"; } > $D/demo/Cargo.toml
cat > $D/demo.sh <<'T'
#!/bin/bash
# Runs the real contracts of /repo on a small chain simulator; exit 0 if the property holds in this scenario.
H=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 9
trap 'rm -rf "$S"' EXIT
cp -r "$H/demo" "$S/demo" && mkdir -p "$S/demo/src" && cp "$H/main.rs" "$S/demo/src/main.rs"
cd "$S/demo" || exit 9
export CARGO_TARGET_DIR=$S/target CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline -q || { echo "demo does not build"; exit 8; }
"$S/target/debug/demo"
T
chmod +x $D/demo.sh
