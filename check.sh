#!/bin/bash
# check.sh <property>: rebuilds the harness against /repo's working tree, then searches.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build=vh
case "$1" in C25) build=vhllvm;; C26|C29) build=vhpy;; esac
(cd harness && cargo build --offline -q -p $build) >/tmp/vh-build-$$.log 2>&1 || { tail -40 /tmp/vh-build-$$.log; echo "build failed"; exit 2; }
rm -f /tmp/vh-build-$$.log
if [ $build = vhpy ]; then
    [ "$1" != C26 ] || (cd harness && cargo build --offline -q -p vh) || { echo "build failed"; exit 2; }
    exec "$VH_PYTHON" pyh/main.py "$1"
fi
exec harness/target/debug/$build "$1"
