#!/bin/bash
# Runs demo.rs against the program in /repo: exit 0 if everything it asserts holds.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
name=vp_demo_$$
trap 'rm -f "/repo/tests/$name.rs"' EXIT
cat "$here/kit.rs" "$here/demo.rs" > "/repo/tests/$name.rs"
cargo test --offline --locked --test "$name" -- --test-threads 1
