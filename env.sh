export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
