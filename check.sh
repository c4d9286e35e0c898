#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness from /repo's current tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$TIER"
export CARGO_TARGET_DIR="$PWD/target"
case "$ID" in
  P15) exec python3 progen/progen.py run "$TIER" ;;
  P23) exec python3 progen/neg.py run "$TIER" ;;
  P24) exec python3 progen/feat.py run "$TIER" ;;
esac
log="$(mktemp)"
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
  cat "$log" >&2
  # Does the library itself build? If it does not, nothing can be said about the property.
  rm -f "$log"
  echo "harness did not build" >&2
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/harness" run "$ID" "$TIER"
