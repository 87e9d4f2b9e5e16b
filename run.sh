#!/bin/bash
# Usage: ./run.sh <ID> quick|thorough   |   ./run.sh replay <file>   |   ./run.sh build
# Builds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export MC_VERIF_DIR="$PWD" RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/harness/target"
(cd harness && cargo build --release --offline --quiet) || { echo "harness build failed" >&2; exit 2; }
case "${1:-}" in
  build) exit 0 ;;
  replay) exec harness/target/release/mc replay "$2" ;;
  *) exec harness/target/release/mc run "$1" "${2:-quick}" ;;
esac
