#!/bin/bash
# development: rebuild the engine
cd /verif/engine && CARGO_TARGET_DIR=/verif/build/engine cargo build --release --offline 2>&1 | grep -E -A6 "^error" | head -40
