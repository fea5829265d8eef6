# Environment of every build: offline, into /verif/target, against /repo's current working tree.
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$here/target MC_VERIF=$here
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# build ARGS...: the main build, with debug assertions and overflow checks
build() {
  # cargo goes by mtimes, and would miss a file put back with an older one
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/soupy-*
  (cd "$here/harness" && cargo build --release --offline --locked "$@")
}
# build_plain ARGS...: the second build, without them, as users have it in release mode
build_plain() {
  (
    export CARGO_TARGET_DIR=$here/target/plain CARGO_PROFILE_RELEASE_DEBUG=0
    export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false
    build "$@"
  )
}
