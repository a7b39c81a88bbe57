#!/bin/bash
# Builds the engine and warms the build caches (offline).
cd "$(dirname "$0")" || exit 1
bash build.sh || exit 1
mkdir -p evidence .cache
./bin/symgo -verif "$(pwd)" -warm || true
exit 0
