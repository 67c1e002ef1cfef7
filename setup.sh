#!/bin/bash
# Builds the framework once (every check rebuilds what it needs from /repo's working tree).
cd "$(dirname "$0")/contracts" || exit 1
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/native cargo build --offline --bin contracts
