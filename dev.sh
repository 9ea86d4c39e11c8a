#!/bin/bash
# development helper: build the harness module $1 and run the engine on its harnesses
set -e
. /opt/vp/env.sh
F=$1; shift
B=${VBUILD:-/tmp/vbuild}
mkdir -p $B
export CARGO_TARGET_DIR=$B/engine
(cd /verif/irsym && cargo build --release --offline -q)
export CARGO_TARGET_DIR=$B/target
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -A warnings"
(cd /verif/harness && cargo rustc --offline -q --profile sym --features $F -- --emit=llvm-ir=$B/$F.ll,link)
cp $B/target/sym/h $B/$F.bin
mkdir -p $B/scratch
[ "$1" = "" ] && exit 0
$B/engine/release/irsym --ir $B/$F.ll --native $B/$F.bin --scratch $B/scratch --out $B/$F.json --harness "$@"
