#!/bin/sh
# usage: facts.sh OUT.json [REPO]   Extract facts from /repo's current sources.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
drv=$here/driver/target/release/over-facts
if [ ! -x "$drv" ]; then
    (cd "$here/driver" && cargo +nightly build --release --offline -q)
fi
t=$here/build/target
mkdir -p "$here/build"
run() {
    rm -rf "$t"/debug/build/over "$t"/debug/.fingerprint/over-* "$t"/debug/incremental/over-*
    rm -f "$out"
    (cd "$here/probe" && OVER_FACTS_OUT=$out RUSTC_WRAPPER=$drv CARGO_TARGET_DIR=$t \
        cargo +nightly check --offline -q)
}
rm -f "$out.uses"
run || true
[ -s "$out" ] || { rm -rf "$t"; run 2>"$out.err" || true; }
# without the uses of the macros, one of which may not compile any more
[ -s "$out" ] || { grep -A6 '^error' "$out.err" >"$out.uses" || true; OVER_NO_USES=1; export OVER_NO_USES; run || true; }
rm -f "$out.err"
[ -s "$out" ]
