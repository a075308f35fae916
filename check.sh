#!/bin/bash
# ./check.sh ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
# ./check.sh --replay FILE replay a recorded violation
# Builds the harness and the oro binary from the current tree of /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VH_VERIF="$PWD"
if ! (cd harness && cargo build --offline --quiet --target-dir ../target >/tmp/vh-build.$$.log 2>&1); then
  echo "ERROR: build failed" >&2
  grep -E "^(error|warning: unused)" -A 12 /tmp/vh-build.$$.log | head -60 >&2
  rm -f /tmp/vh-build.$$.log
  exit 2
fi
rm -f /tmp/vh-build.$$.log
exec ./target/debug/vh "$@"
