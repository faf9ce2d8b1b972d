#!/bin/bash
# builds the extractor; the checks build the rest from /repo's current tree
set -e
cd "$(dirname "$0")/extract"
CARGO_NET_OFFLINE=true RUSTC_WRAPPER= cargo build --offline --locked
