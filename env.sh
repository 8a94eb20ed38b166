export HOME="${HOME:-/root}"
[ -x "$HOME/.cargo/bin/cargo" ] || { [ -x /root/.cargo/bin/cargo ] && export HOME=/root; }
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cap-lints warn -A warnings"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
