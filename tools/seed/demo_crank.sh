#!/bin/bash
# exit 0: the property held in this scenario; nonzero: it did not. Builds on what build.sh has built in /repo/target.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo" "$w/demo" || exit 3
cd "$w/demo" || exit 3
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/repo/target}
cargo build --offline > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
cp "$CARGO_TARGET_DIR/debug/demo" "$w/run" || exit 3
cd "$w" && timeout 120 "$w/run"
