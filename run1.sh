#!/bin/bash
# run1.sh FN CASE PARAMS [extra]: one symbolic run, for development
f=$1; c=$2; p=$3; shift 3
D=/verif/build/target/release
exec timeout 900 /verif/build/engine/release/elsym --ll $D/deps/harness.ll --lib $D/libharness.so --replayer /verif/build/engine/release/replayer --fn $f --case $c --params "$p" "$@"
