#!/bin/bash
# development: rebuild the harness
cd /verif/harness && CARGO_TARGET_DIR=/verif/build/target RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp" cargo rustc --release --offline -- --emit=llvm-ir 2>&1 | grep -E -A9 "^(error|warning: unused)" | head -${1:-60}
