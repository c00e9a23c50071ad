# Sourced by run.sh and setup.sh.
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export VERIF_DIR=/verif
export CARGO_TARGET_DIR=/verif/target
