#!/bin/bash
# Checks that the tools are here and compiles the harness's dependencies (the
# checks build again from /repo's current tree).
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence
export CARGO_TARGET_DIR=$PWD/build/target
cd harness
cargo build --offline --quiet --bin c12 &
cargo build --offline --quiet --release --bin c12 &
wait %1
wait %2
