#!/bin/bash
# Runs demo.rs (next to this script) as a test that has src/core/jwe.rs in it, with josekit.rs (next to this
# script) standing in for josekit, which cannot be fetched here.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
python3 /opt/vp/scope/mirror.py || exit 2
T=/opt/vp/work/tests/vpdemo.rs
trap 'rm -f /opt/vp/work/tests/vpdemo.rs' EXIT
cat "$HERE/josekit.rs" "$HERE/demo.rs" > "$T"
cat >> "$T" <<'X'
extern crate self as josekit;
mod core {
    pub use openid4vp::core::*;
}
#[path = "/repo/src/core/jwe.rs"]
mod vpjwe;
X
cd /opt/vp/work && timeout 280 cargo test --workspace --all-features --offline --test vpdemo -- --nocapture demo
