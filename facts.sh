#!/bin/bash
# Build the fact extractor and extract facts from /repo's current tree into $1 (x86_64 and aarch64).
# Usage: facts.sh OUTDIR [x86|all]
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${GV_REPO:-/repo}"
OUT="$1"; MODE="${2:-all}"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=0
CACHE="${GV_CACHE:-$HERE/.cache}"
mkdir -p "$CACHE" "$OUT"
SR="$(rustc +nightly --print sysroot)"
DRV="$CACHE/driver-$(cat "$HERE/driver/driver.rs" | sha256sum | cut -c1-16)"
if [ ! -x "$DRV" ]; then
  rustc +nightly --edition 2024 -O "$HERE/driver/driver.rs" -o "$DRV.tmp.$$" -C link-args=-Wl,-rpath,"$SR/lib" >"$OUT/driver-build.log" 2>&1
  mv "$DRV.tmp.$$" "$DRV"
fi
export RUSTC_WORKSPACE_WRAPPER="$DRV" GVFACTS_OUT="$OUT"
cd "$REPO"
# the driver must see the crates every time (cargo's freshness cache would skip it): drop what cargo knows of them
fresh() {
  rm -f "$OUT"/graviola-x86_64.json "$OUT"/graviola-aarch64.json "$OUT"/rustls_graviola-x86_64.json
  for d in "$CACHE/tx/debug" "$CACHE/ta/aarch64-unknown-linux-gnu/debug" "$CACHE/ta/debug"; do
    rm -rf "$d"/.fingerprint/graviola-* "$d"/.fingerprint/rustls-graviola-* "$d"/build/graviola* "$d"/build/rustls-graviola* \
           "$d"/deps/*graviola*
  done
}
run() {
  ( cargo +nightly check --offline --locked -p graviola -p rustls-graviola --target-dir "$CACHE/tx" >"$OUT/x86.log" 2>&1 ) &
  local P1=$! P2= R=0
  if [ "$MODE" = all ]; then
    ( cargo +nightly check --offline --locked -p graviola -Zbuild-std=std,panic_abort --target aarch64-unknown-linux-gnu \
        --target-dir "$CACHE/ta" >"$OUT/a64.log" 2>&1 ) &
    P2=$!
  fi
  wait $P1 || { R=1; tail -40 "$OUT/x86.log" >&2; }
  if [ -n "$P2" ]; then wait $P2 || { R=1; tail -40 "$OUT/a64.log" >&2; }; fi
  return $R
}
have() {
  [ -s "$OUT/graviola-x86_64.json" ] && [ -s "$OUT/rustls_graviola-x86_64.json" ] && { [ "$MODE" != all ] || [ -s "$OUT/graviola-aarch64.json" ]; }
}
fresh
run || exit 1
if ! have; then  # unknown cache layout: start over with empty target directories
  rm -rf "$CACHE/tx" "$CACHE/ta"
  run || exit 1
  have || { echo "facts.sh: the extractor was not run" >&2; exit 1; }
fi
exit 0
