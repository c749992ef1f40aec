#!/bin/bash
# Builds the model checker from the committed files (offline).
cd "$(dirname "$0")/mc" && cargo build --release --offline --quiet 2>/dev/null || { echo "mc build failed"; exit 1; }
mkdir -p ../evidence
cd ../mcmacro && cargo build --offline --quiet 2>/dev/null || true
