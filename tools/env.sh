# Sourced by the scripts of /verif. The repository only builds with this toolchain.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF="${VERIF:-/verif}" REPO=/repo
export WORK="$VERIF/work"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE RUST_LIB_BACKTRACE
