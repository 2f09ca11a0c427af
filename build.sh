#!/bin/bash
# Builds the engine and the harness (IR + native replay binary) from /repo's
# current working tree.  Output: $OUT/prog.ll and $OUT/vh
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH LANG=${LANG:-C.UTF-8}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset KRYOPTIC_CONF KRYOPTIC_OPENSSL_SOURCES CARGO_INCREMENTAL
mkdir -p $V/work
( cd $V/engine && CARGO_TARGET_DIR=$V/engine/target cargo build --release --offline >$V/work/engine.log 2>&1 ) &
E=$!
cc -O1 -c $V/harness/rt.c -o $V/work/rt.o
export KRYOPTIC_VERIF_DIR=$V/harness CARGO_TARGET_DIR=$V/harness/target
# the lint level keeps unrelated warnings quiet; the cfg enables the in-crate hook
export RUSTFLAGS="--cfg kryoptic_verif -Awarnings"
cd $V/harness
# staleness by content, not by mtime
SUM=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.h' -o -name '*.asn1' \) -print0 | sort -z | xargs -0 sha256sum | cat - $V/harness/Cargo.toml $V/harness/rt.c $V/harness/inlib.rs $V/harness/src/*.rs $V/build.sh | sha256sum | cut -d' ' -f1)
if [ "$(cat $V/work/stamp 2>/dev/null)" != "$SUM" ]; then
  rm -f $V/work/stamp
  cargo clean --release --offline -p kryoptic-lib -p ossl -p vh >/dev/null 2>&1 || true
fi
cargo rustc --release --offline --bin vh -- --emit=llvm-ir,link -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=$V/work/rt.o >$V/work/harness.log 2>&1 || { tail -60 $V/work/harness.log; exit 2; }
LL=$(ls -t $CARGO_TARGET_DIR/release/deps/vh-*.ll | head -1)
[ -n "$LL" ]
ln -sf "$LL" $V/work/prog.ll
ln -sf $CARGO_TARGET_DIR/release/vh $V/work/vh
echo $SUM > $V/work/stamp
wait $E || { tail -40 $V/work/engine.log; exit 2; }
