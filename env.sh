# toolchain and cargo settings shared by all checks (same as the repository's own build)
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${BJ_TOOLCHAIN:-1.79.0}" RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
