#!/bin/bash
# setup_cmd: builds the driver once (the checks rebuild incrementally) and checks the toolchain.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence .build
bash harness/build.sh
