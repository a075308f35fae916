# toolchain and cargo settings of the harness build (sourced)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export RUSTUP_TOOLCHAIN=1.72.1
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
