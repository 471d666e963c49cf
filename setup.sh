#!/bin/bash
# builds the extractor and, for the failing-input searches, the crate with stand-in dependencies (offline)
set -e
cd "$(dirname "$0")"
cargo build --offline --manifest-path vx/Cargo.toml
python3 shadowlib.py "${VX_REPO:-/repo}" || true
