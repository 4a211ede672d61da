#!/bin/bash
# warms the build folders; every check builds what it needs by itself
cd "$(dirname "$0")"
(cd tools/extract && CARGO_TARGET_DIR=../../.work/tgt-extract cargo build --offline --quiet)
(cd harness && CARGO_TARGET_DIR=../.work/tgt-harness RUSTFLAGS="--cap-lints warn" cargo build --offline --quiet)
exit 0
