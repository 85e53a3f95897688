#!/bin/bash
# usage: check.sh <property> [quick|thorough] | replay <file> | build
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
unset RUSTC RUSTDOC RUSTC_WRAPPER RUSTUP_TOOLCHAIN
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_TERM_COLOR=never
export RUSTFLAGS="--cap-lints allow --cfg fall_verif" RUST_BACKTRACE=0
export VERIF_SEED="${VERIF_SEED:-1}"
log="$VERIF_DIR/target/build.$$.log"
mkdir -p "$VERIF_DIR/target"
if ! cargo build --release --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "the harness does not build against /repo: no verdict" >&2
  exit 4
fi
rm -f "$log"
bin="$VERIF_DIR/target/release/harness"
case "${1:-}" in
  build)
    # for C35 and C36, which report it themselves if this does not work
    cargo build --release --offline --locked --manifest-path "$VERIF_DIR/backend/bridge/Cargo.toml" >/dev/null 2>&1
    exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$1" "${2:-quick}" ;;
esac
