#!/bin/bash
# build the MIR dumper if needed and dump /repo's current tree to /verif/.build/mir.json
set -e
V=$(cd "$(dirname "$0")/.." && pwd); B=${APINT_BUILD:-$V/.build}; mkdir -p "$B"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$B/mirdump" ] || [ "$V/driver/main.rs" -nt "$B/mirdump" ]; then
  rustc +nightly --edition 2021 -O "$V/driver/main.rs" -o "$B/mirdump"
fi
exec 9>"$B/lock"; flock 9
rm -f "$B/mir.json"
# the library itself is always recompiled, its dependencies are reused
rm -rf "$B"/target/debug/build/apint "$B"/target/debug/incremental/apint* "$B"/target/debug/.fingerprint/apint* "$B"/target/debug/deps/*apint*
cd "${REPO:-/repo}"
if ! APINT_MIR_OUT=$B/mir.json CARGO_TARGET_DIR=$B/target RUSTC_WORKSPACE_WRAPPER=$B/mirdump CARGO_INCREMENTAL=0 \
  cargo +nightly check --offline --all-features --lib -q >"$B/cargo.log" 2>&1; then cat "$B/cargo.log"; exit 1; fi
test -s "$B/mir.json"
