#!/bin/bash
# run.sh check PROPERTY quick|thorough | replay FILE | build
# Builds the simulator against /repo's current working tree and runs it.
set -u
DIR=$(cd "$(dirname "$0")" && pwd)
. "$DIR/env.sh"
REPO=${VERIF_REPO:-/repo}
mkdir -p "$DIR/build"
# build CRATE MIRROR [JOSEKIT]
build() {
  (
    flock 9
    python3 "$DIR/mirror.py" "$REPO" "$DIR/build/$2" ${3:-} || { echo "mirroring $REPO failed"; exit 2; }
    cd "$DIR/$1" && CARGO_TARGET_DIR="$DIR/build/target" cargo build --offline --locked >"$DIR/build/log" 2>&1 || {
      tail -50 "$DIR/build/log"; echo "building the simulator against $REPO failed"; exit 2; }
  ) 9>"$DIR/build/lock"
}
BIN="$DIR/build/target/debug/vpsim"
# C17 is the one property that needs src/core/jwe.rs, which is built against a stand-in for josekit.
JWE=
case "${1:-}:${2:-}" in
  build:*) build sim mirror && { build sim-jwe mirror-jwe ../../josekit || true; }; exit ;;
  check:C17 | trace:C17) JWE=1 ;;
  replay:*) grep -q '"property": *"C17"' "$2" && JWE=1 ;;
esac
if [ -n "$JWE" ]; then
  build sim-jwe mirror-jwe ../../josekit && BIN="$BIN-jwe" || exit 2
else
  build sim mirror || exit 2
fi
case "${1:-}" in
  check) exec "$BIN" check "$2" "${3:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$DIR" ;;
  replay) exec "$BIN" replay "$2" ;;
  trace) exec "$BIN" trace "$2" "${VERIF_SEED:-1}" "$3" ;;
  *) echo "usage: run.sh check PROPERTY quick|thorough | replay FILE | build"; exit 2 ;;
esac
