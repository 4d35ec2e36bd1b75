#!/bin/bash
# Runs demo.rs (next to this script) as an integration test of the library.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
python3 /opt/vp/scope/mirror.py || exit 2
T=/opt/vp/work/tests/vpdemo.rs
trap 'rm -f /opt/vp/work/tests/vpdemo.rs' EXIT
cat "$HERE/support.rs" "$HERE/demo.rs" > "$T"
cd /opt/vp/work && timeout 280 cargo test --workspace --all-features --offline --test vpdemo -- --nocapture
