#!/bin/bash
# extract.sh OUTDIR [REPO]: dump MIR facts of REPO's current tree into OUTDIR.
set -e
OUT=$1; REPO=${2:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
C=$V/.cache; mkdir -p "$C" "$OUT"
exec 9>"$C/lock"; flock 9
export HOME=${HOME:-/root} PATH=/usr/local/bin:$PATH
unset RUSTC_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN
SYS=$(rustc +nightly --print sysroot)
H=$(sha256sum < "$V/driver/main.rs" | cut -c1-16)
if [ ! -x "$C/mirfacts-$H" ]; then
  rustc +nightly --edition 2021 -O -A warnings "$V/driver/main.rs" -o "$C/mirfacts-$H.tmp"
  mv "$C/mirfacts-$H.tmp" "$C/mirfacts-$H"
fi
# analyse a copy of the sources, so that /repo gets no lock file or target dir
S=$C/src
rm -rf "$C/src"; mkdir -p "$S"
(cd "$REPO" && tar cf - --exclude=./target --exclude=./.git .) | (cd "$S" && tar xf -)
[ -e "$S/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$S/Cargo.lock"
# cargo would skip the wrapper for workspace crates it thinks are fresh
rm -rf "$C"/target/debug/.fingerprint/d10* "$C"/target/debug/build/d10* "$C"/target/debug/deps/*d10*
export RUSTC_WORKSPACE_WRAPPER=$C/mirfacts-$H LD_LIBRARY_PATH=$SYS/lib
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$C/target CARGO_INCREMENTAL=0
export PYO3_PYTHON=/opt/vp/venv/bin/python MIRFACTS_OUT=$OUT CARGO_TERM_COLOR=never
rm -f "$OUT"/*.json
cd "$S"
cargo check --workspace --offline --quiet 2>"$OUT/cargo.log" || { cat "$OUT/cargo.log" >&2; exit 3; }
