#!/bin/bash
# ex.sh FILE.rs: runs a scratch program against the contracts library.
. /opt/vp/env.sh; cd /verif/contracts; export CARGO_INCREMENTAL=0; unset CARGO_PROFILE_DEV_DEBUG
mkdir -p examples; cp $1 examples/scratch.rs
CARGO_TARGET_DIR=/verif/.build/native cargo run --offline --locked --quiet --example scratch; rm -f examples/scratch.rs; rmdir examples
