#!/bin/bash
# builds the executable contracts and the dependencies of the crate for the verifier
set -e
cd "$(dirname "$0")"
mkdir -p target evidence
(cd harness && CARGO_TARGET_DIR=/verif/target/harness cargo build --offline)
CARGO_TARGET_DIR=/verif/target/vdeps cargo +1.98.1 build --offline --lib --manifest-path /repo/Cargo.toml
verus --version
