#!/bin/bash
# usage: run.sh PROPERTY [--replay FILE] [driver options]
# Builds the harness of one property from /repo's current tree and runs it.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
BUILD=$ROOT/build
mkdir -p "$BUILD"
case "$ID" in
  P01|P02) exec "$ROOT/conc.sh" "$ID" "$@" ;;
esac
export RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings"
BIN=$(echo "$ID" | tr A-Z a-z)
cd "$ROOT/harness/seq" || exit 2
build() { # profile
  CARGO_TARGET_DIR=$BUILD/seq cargo build --offline --locked -q --profile "$1" --bin "$BIN" > "$BUILD/$BIN-$1.log" 2>&1
}
build dev & J=$!
build release; R2=$?
wait $J; R1=$?
if [ $R1 -ne 0 ] || [ $R2 -ne 0 ]; then
  echo "ERROR: building the harness failed"; cat "$BUILD/$BIN-dev.log" | tail -n 60; exit 3
fi
[ -n "${BUILD_ONLY:-}" ] && exit 0
cd "$ROOT" || exit 2
if [ "${1:-}" = "--replay" ]; then
  exec "$BUILD/seq/debug/$BIN" --rel-bin "$BUILD/seq/release/$BIN" --replay-file "$2"
fi
exec "$BUILD/seq/debug/$BIN" --rel-bin "$BUILD/seq/release/$BIN" --root "$ROOT" "$@"
