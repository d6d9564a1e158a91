#!/bin/bash
# Builds the simulator and, from /repo's current working tree, the programs and libraries under test.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
T=${VSIM_TARGET:-$HERE/target}
mkdir -p "$T"
if [ ! -e "$T/libvsim.so" ] || [ "$HERE/sim/shim.c" -nt "$T/libvsim.so" ] || [ "$HERE/sim/shim.h" -nt "$T/libvsim.so" ]; then
  gcc -O2 -Wall -shared -fPIC -DVSIM_PRELOAD -o "$T/libvsim.so.$$" "$HERE/sim/shim.c" -ldl
  mv "$T/libvsim.so.$$" "$T/libvsim.so"
fi
# cargo decides by modification times; make sure that it never takes a changed source for an unchanged one
H=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$HERE/harness" && sha256sum build.rs Cargo.toml Cargo.lock src/*.rs src/props/*.rs old-files.jsonl; sha256sum ../sim/*) | sha256sum)
if [ "$(cat "$T/.sources" 2>/dev/null)" != "$H" ]; then
  rm -rf "$T"/{bins,harness}/release/.fingerprint/{atsc,wavbrro,vsri,csv-compressor,csv_compressor,tools,vsim}-*
fi
(cd /repo && CARGO_TARGET_DIR="$T/bins" cargo build --release --locked --offline -q -p atsc -p csv-compressor -p tools --bins) &
P=$!
(cd "$HERE/harness" && CARGO_TARGET_DIR="$T/harness" cargo build --release --offline -q) || { wait $P; exit 1; }
wait $P
echo "$H" > "$T/.sources"
