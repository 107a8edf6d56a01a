#!/bin/bash
# check.sh <ID> [quick|thorough]   build the check of one property from /repo's current tree and run it
# exit 0: held; 1: VIOLATION line printed; 2: the check could not be built or started
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
DIR="$(cd "$(dirname "$0")" && pwd)"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
export VERIF_DIR="$DIR" CARGO_TARGET_DIR="$DIR/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
mkdir -p "$DIR/target" "$DIR/work" "$DIR/evidence"
cd "$DIR/harness" || exit 2
# the build is keyed on file contents, not on modification times
sum="$( (find /repo/src /repo/Cargo.toml /repo/Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$DIR/target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  cargo clean --offline -p nar20_1 >/dev/null 2>&1
  echo "$sum" > "$DIR/target/.repo-sum"
fi
if [ "$BIN" = all ]; then
  cargo build --offline --bins >"$DIR/work/build-all.log" 2>&1 || { tail -40 "$DIR/work/build-all.log"; exit 2; }
  exit 0
fi
if ! cargo build --offline --bin "$BIN" >"$DIR/work/build-$BIN.log" 2>&1; then
  echo "$ID: the check does not build against the current tree:"; grep -A12 '^error' "$DIR/work/build-$BIN.log" | head -60
  exit 2
fi
exec "$DIR/target/debug/$BIN" --tier "$TIER"
