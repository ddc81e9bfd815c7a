#!/bin/bash
# builds the extraction tool; the checks rebuild everything else from /repo
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
(cd tools/vx && cargo build --offline --release --target-dir ../../build/vx)
