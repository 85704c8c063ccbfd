#!/bin/bash
# Builds the replay crate from the committed files, offline.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
export CARGO_NET_OFFLINE=true
mkdir -p .build evidence
python3 tools/gen_tags.py replay/src/tags_gen.rs
cd replay
CARGO_TARGET_DIR=/verif/.build/replay RUSTFLAGS=-Awarnings cargo build --offline --quiet
