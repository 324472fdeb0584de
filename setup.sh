#!/bin/bash
# Builds the verifier once, to see that it builds offline. Every check builds again from /repo's current tree.
set -e
cd "$(dirname "$0")/harness/vcgen"
CARGO_TARGET_DIR=/verif/harness/target cargo build --offline --locked 2>&1 | tail -3
z3 --version
cd ../kani_contracts
CARGO_TARGET_DIR=/verif/harness/target cargo build --offline --locked 2>&1 | tail -3
cargo kani --version
