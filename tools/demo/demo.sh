#!/bin/bash
# Builds the program from /repo (cwd) natively and plays scenario.rs against it.
# exit 0: the property holds on this history; 1: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/swigdemo.XXXXXX)" || exit 3
trap 'rm -rf "$t"' EXIT
tar xzf "$here/lab.tgz" -C "$t" || exit 3
cp "$here/scenario.rs" "$t/sim/src/scenario.rs"
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true
(cd "$t/prog" && RUSTC_WRAPPER="$t/prog/rustc-wrapper.sh" CARGO_TARGET_DIR="$t/tp" cargo build --release --offline -q -p progso >"$t/p.log" 2>&1) &
a=$!
f=; grep -q swig_state "$t/sim/src/scenario.rs" && f="--features host"
grep -q swig_interface "$t/sim/src/scenario.rs" && f="--features iface"
grep -q sdk:: "$t/sim/src/scenario.rs" && f="--features sdk"
(cd "$t/sim" && CARGO_TARGET_DIR="$t/ts" cargo build --release --offline -q $f >"$t/s.log" 2>&1) &
b=$!
wait $a || { grep -A9 '^error' "$t/p.log"; exit 4; }
wait $b || { grep -A9 '^error' "$t/s.log"; exit 5; }
cd "$t" && timeout 120 ts/release/sim "$t/tp/release/libprogso.so"
