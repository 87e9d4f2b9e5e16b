#!/bin/bash
# Prepare everything the checks need (all offline).
set -eu
cd "$(dirname "$0")"
./run.sh build
# The command-line tool, the Python module and the library with other features.
MC_VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true harness/target/release/mc prepare
