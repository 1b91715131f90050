#!/bin/bash
# Builds main.rs (beside this file) against /repo's victor in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'cd /; find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" && cp /repo/Cargo.lock "$d/" || exit 2
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.1"
edition = "2018"
[dependencies]
victor = { path = "/repo/victor" }
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="${VICTOR_DEMO_TARGET:-$d/target}" cargo build --offline -q || exit 2
exec_out=$("${VICTOR_DEMO_TARGET:-$d/target}/debug/demo" 2>&1); rc=$?
echo "$exec_out"
exit $rc
