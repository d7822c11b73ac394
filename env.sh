# Sourced by run.sh and setup.sh: same toolchain and flags as the repository's own build.
T=/root/.rustup/toolchains
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.70.0
export RUSTC=/opt/vp/shim/rustc
[ -x "$RUSTC" ] || export RUSTC="${VERIF_ROOT:-/verif}/rustc-shim"
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-C target-cpu=x86-64-v2 -Awarnings"
export CARGO_TARGET_DIR="${VERIF_ROOT:-/verif}/target"
export RUST_BACKTRACE=0
