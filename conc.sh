#!/bin/bash
# usage: conc.sh P01|P02 [options], called by run.sh: the checks on threads sharing a Bump.
# Four builds: the code as it is and the code with instrumented atomics, each checked and optimised.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
BUILD=$ROOT/build
BIN=$(echo "$ID" | tr A-Z a-z)
H=$( (cat "$ROOT/harness/shim/lib.rs"; rustc -vV) | sha256sum | cut -c1-16)
SHIM=$BUILD/shim-$H
if [ ! -f "$SHIM/libstatic_alloc_mc_core.rlib" ]; then
  mkdir -p "$SHIM/tmp.$$"
  rustc --edition 2021 -O --crate-type rlib --crate-name static_alloc_mc_core -A warnings -o "$SHIM/tmp.$$/libstatic_alloc_mc_core.rlib" "$ROOT/harness/shim/lib.rs" > "$BUILD/shim.log" 2>&1 || { echo "ERROR: building the instrumented core failed"; cat "$BUILD/shim.log"; exit 3; }
  mv "$SHIM/tmp.$$/libstatic_alloc_mc_core.rlib" "$SHIM/" && rmdir "$SHIM/tmp.$$"
fi
F="-A dangerous_implicit_autorefs -A warnings"
G="$F --cfg static_alloc_mc -L dependency=$SHIM --extern static_alloc_mc_core=$SHIM/libstatic_alloc_mc_core.rlib"
cd "$ROOT/harness/conc" || exit 2
build() { # kind flags profile
  RUSTFLAGS="$2" CARGO_TARGET_DIR=$BUILD/$1 cargo build --offline --locked -q --profile "$3" --bin "$BIN" > "$BUILD/$BIN-$1-$3.log" 2>&1 || echo "$BIN-$1-$3" >> "$BUILD/$BIN.failed"
}
rm -f "$BUILD/$BIN.failed"
build conc "$F" dev & build conc "$F" release & build conc-shim "$G" dev & build conc-shim "$G" release & wait
BINS=plain-checked=$BUILD/conc/debug/$BIN,plain-release=$BUILD/conc/release/$BIN,instrumented-checked=$BUILD/conc-shim/debug/$BIN,instrumented-release=$BUILD/conc-shim/release/$BIN
if [ -f "$BUILD/$BIN.failed" ] && ! grep -qv -- "$BIN-conc-shim-" "$BUILD/$BIN.failed"; then
  # Code which uses an interface the instrumented core does not have: its machine instructions can still be explored.
  echo "NOTE: the crate does not build with instrumented atomics; exploring the plain builds only"
  BINS=${BINS%%,instrumented*}
elif [ -f "$BUILD/$BIN.failed" ]; then
  for l in $(cat "$BUILD/$BIN.failed"); do echo "ERROR: building the harness failed ($l)"; tail -n 40 "$BUILD/$l.log"; done
  exit 3
fi
[ -n "${BUILD_ONLY:-}" ] && exit 0
cd "$ROOT" || exit 2
if [ "${1:-}" = "--replay" ]; then
  exec "$BUILD/conc/debug/$BIN" --bins "$BINS" --replay-file "$2"
fi
exec "$BUILD/conc/debug/$BIN" --bins "$BINS" --root "$ROOT" "$@"
