#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && exec cargo build --offline --quiet --target-dir ../target
