#!/bin/bash
# development: rebuild the command line harness with all binaries (cli/gen as last written by check.py)
cd /verif/cli && CARGO_TARGET_DIR=/verif/build/cli RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp" cargo rustc --release --offline -- --emit=llvm-ir 2>&1 | grep -E -A9 "^(error|warning: unused)" | head -${1:-60}
