#!/bin/bash
# builds the extractor and warms the build folders of the checks; everything is built again on demand if missing
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh 2>/dev/null
set -e
(cd vx && cargo build --offline --quiet)
(cd replay && CARGO_TARGET_DIR=/verif/target/replay cargo build --offline --quiet)
mkdir -p target
T=$(mktemp -d target/setup-XXXXXX)
VERIF_EXPAND_TARGET=/verif/target/expand tools/expand.sh /repo "$PWD/$T"
rm -rf "$PWD/$T"
