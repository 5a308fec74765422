#!/bin/bash
# exit 0: the property held in this scenario; nonzero: it did not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo" "$w/demo" || exit 3
cd "$w/demo" || exit 3
cargo build --offline > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
timeout 120 "$w/demo/target/debug/demo"
