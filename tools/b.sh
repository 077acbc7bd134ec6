#!/bin/bash
# developer build
. /opt/vp/lib/env.sh
[ -n "$BLOCKS" ] && export RUSTC_WRAPPER=/verif/tools/rustc-blocks.sh
export CARGO_TARGET_DIR=${TARGET:-/verif/build/target} CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
cd /verif/sim && cargo build --offline "$@"
