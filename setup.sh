#!/bin/bash
# Builds the harness once; the checks rebuild whatever changed.
set -e
cd "$(dirname "$0")"
. ./env.sh
export CARGO_TARGET_DIR="$PWD/target"
(cd harness && cargo build --release --offline)
python3 progen/progen.py prebuild
