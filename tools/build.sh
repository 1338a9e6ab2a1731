#!/bin/bash
# Builds the engine and the harness (with /repo's current sources).
# usage: build.sh BUILD_DIR
# Result: BUILD_DIR/engine/release/sxe, BUILD_DIR/harness/release/deps/{harness.ll,libharness.so}
here=$(cd "$(dirname "$0")/.." && pwd)
out=${1:?}
mkdir -p "$out" && out=$(cd "$out" && pwd) || exit 1
( cd "$here/engine" && RUSTFLAGS=-Awarnings cargo build --release --offline -q --target-dir "$out/engine" ) 2> "$out/engine.log" &
e=$!
harness() {
    ( cd "$here/harness" && RUSTFLAGS=-Awarnings cargo rustc --release --offline -q --target-dir "$out/harness" "$@" -- \
        --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all ) 2> "$out/harness.log"
}
# Should the parser's inner functions have changed their signatures, only P37 and P38 lose their checks.
harness || harness --no-default-features
h=$?
wait $e || { cat "$out/engine.log" >&2; exit 1; }
[ $h = 0 ] || { cat "$out/harness.log" >&2; exit 1; }
