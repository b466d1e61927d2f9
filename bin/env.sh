# Sourced by the scripts of /verif: an offline toolchain with unstable options, and our own target directory.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_BOOTSTRAP=1
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export RUSTC_WRAPPER="$VERIF/bin/rustc-wrap"
export CARGO_TARGET_DIR="$VERIF/target"
TRIPLE=x86_64-unknown-linux-gnu
