# Sourced by the scripts here: the toolchain and flags every build of the simulator uses.
export PATH=/root/.cargo/bin:$PATH
export HOME=/root
export RUSTUP_TOOLCHAIN=nightly-2023-04-01
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="--cfg goko_sim --cap-lints=allow"
export CARGO_TARGET_DIR=/verif/target
unset TRAVIS_RUST_VERSION
