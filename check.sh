#!/bin/bash
# Builds the monitors against /repo's working tree and runs one property's check.
#   ./check.sh ID [quick|thorough]
#   ./check.sh ID replay TIER SEED CASE
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$VERIF_DIR/target"
ID="${1:?property id}"
MODE="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"

mkdir -p "$VERIF_DIR/target"
build() { # log-name, command...
  local log="$VERIF_DIR/target/$1.log"; shift
  if ! "$@" >"$log" 2>&1; then
    echo "build failed: $*"; tail -40 "$log"; return 1
  fi
}

build harness cargo build --offline --locked --release --manifest-path harness/Cargo.toml || exit 2
VH="$VERIF_DIR/target/release/vh"

case "$ID" in
  C15)
    # the command line program, as a user would run it, built from the working tree
    build cli cargo build --offline --locked --release --manifest-path /repo/Cargo.toml -p varisat-cli \
      --target-dir "$VERIF_DIR/target/cli" || exit 2
    export VH_CLI="$VERIF_DIR/target/cli/release/varisat"
    ;;
esac

if [ "$ID" = C16 ]; then
  . tools/c16.sh
  if [ "$MODE" = replay ]; then c16_replay "${3:?tier}" "${4:?seed}" "${5:?case}"; fi
  c16
  exit $?
fi

case "$MODE" in
  replay) exec "$VH" replay "$ID" "${3:?tier}" "${4:?seed}" "${5:?case}" ;;
esac

"$VH" check "$ID" "$MODE" "$SEED"
RC=$?
[ $RC -ne 0 ] && exit $RC
exit 0
