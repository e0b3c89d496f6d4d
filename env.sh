# Sourced by setup.sh and run.sh: the toolchain and settings /repo itself is built with.
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.88.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1
export CARGO_TARGET_DIR=/verif/target
