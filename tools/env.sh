export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-07-01-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS=-Csymbol-mangling-version=v0 RUSTC_ICE=0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
