#!/bin/bash
# Builds the extractor and the run-time evaluation from the committed files.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
(cd vx && cargo build --release --offline --locked --target-dir ../build/vx) || exit 1
(cd harness && cargo build --offline --locked --bins --target-dir ../build/harness) || exit 1
