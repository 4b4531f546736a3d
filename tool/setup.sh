#!/bin/bash
# Builds the extractor (and the input search) from the committed files; every check does so itself too.
set -e
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR="$PWD/target/extract" cargo build --offline --release --quiet --manifest-path extract/Cargo.toml
