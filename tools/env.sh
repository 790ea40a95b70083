# Offline toolchain for the harness; nothing here touches /repo/target.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export RUSTUP_TOOLCHAIN=1.90.0 RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never NO_COLOR=1
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER RUST_BACKTRACE
