#!/bin/bash
# builds the harness once (the checks rebuild what changed)
cd "$(dirname "$0")/harness" && CARGO_NET_OFFLINE=true cargo build --offline --locked --bins 2>&1 | tail -3
exit 0
