#!/bin/bash
# Builds the conformance harness from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
cd harness
CARGO_TARGET_DIR=../.build/target cargo build --offline --quiet
for m in ../spec/*.tla; do (cd ../spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename $m)" > /dev/null) ; done
../.build/target/debug/weedle-conformance list > /dev/null
