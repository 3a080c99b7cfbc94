#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
cd "$(dirname "$0")/../harness" || exit 1
. /opt/vp/env.sh
cargo build --offline
