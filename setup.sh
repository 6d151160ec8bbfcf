#!/bin/bash
# Builds everything the checks use, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
set -e
(cd harness && cargo build --offline -q -p vh)
(cd harness && cargo build --offline -q -p vhllvm)
(cd harness && cargo build --offline -q -p vhpy)
