#!/bin/bash
# Build harness binaries: [PROFILE=checked] hb.sh bin...
. /opt/vp/env.sh >/dev/null 2>&1
cd /verif/harness || exit 2
args=(); for b in "$@"; do args+=(--bin "$b"); done
export CARGO_TARGET_DIR=/verif/harness/target
exec cargo build --profile "${PROFILE:-release}" --offline --quiet "${args[@]}" --config 'build.rustflags=["-Awarnings","--cap-lints=allow"]'
