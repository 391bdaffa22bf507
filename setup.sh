#!/bin/bash
# Builds the engine and, from /repo's current tree, the harnesses for it and their native replay.
set -e
cd /verif
bash build.sh engine
bash build.sh sym & S=$!
wait $S
bash build.sh native
./build/engine/release/symir selftest --n 2000
