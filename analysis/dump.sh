#!/bin/bash
# usage: dump.sh REPO OUT.json  -- writes the MIR dump of REPO's current tree
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=$(realpath "$1"); OUT=$(realpath -m "$2")
TC=${VERIF_NIGHTLY:-nightly}
B=${VERIF_BUILD:-$HERE/.build}
mkdir -p "$B"
DRV=$B/driver/debug/mirdump
( flock 9
  if [ ! -x "$DRV" ] || [ "$HERE/driver/src/main.rs" -nt "$DRV" ] || [ "$HERE/driver/Cargo.toml" -nt "$DRV" ]; then
    (cd "$HERE/driver" && env -u RUSTFLAGS CARGO_TARGET_DIR="$B/driver" RUSTUP_TOOLCHAIN=$TC cargo build --offline -q) || exit 3
    touch "$DRV"
  fi
  # cargo's freshness cache would skip the wrapper: forget the crate's own artefacts first
  rm -rf "$B"/target/debug/.fingerprint/geo-crossings-* "$B"/target/debug/build/geo-crossings "$B"/target/debug/build/geo-crossings-* "$B"/target/debug/incremental "$OUT"
  cd "$REPO"
  env LD_LIBRARY_PATH="$(rustc +$TC --print sysroot)/lib" RUSTC_WORKSPACE_WRAPPER="$DRV" \
    MIRDUMP_CRATE=geo_crossings MIRDUMP_OUT="$OUT" MIRDUMP_ALLOW="$HERE/analysis/allow.txt" MIRDUMP_DENY="$HERE/analysis/deny.txt" \
    CARGO_TARGET_DIR="$B/target" RUSTUP_TOOLCHAIN=$TC CARGO_INCREMENTAL=0 \
    RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=off -Awarnings" \
    cargo check --lib --offline -q || exit 4
  [ -s "$OUT" ] || exit 5
) 9>"$B/lock"
