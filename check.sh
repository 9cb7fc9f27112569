#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   |   check.sh build   |   check.sh replay FILE
# Builds the harness against /repo's working tree and runs one property's check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1
export CARGO_TARGET_DIR="${VH_TARGET:-$here/target}"
export CARGO_INCREMENTAL=0
unset RUSTFLAGS
cd "$here/harness" || exit 2
if ! cargo build --offline --locked -q 2>"/tmp/vh-build-$$.log"; then
    cat "/tmp/vh-build-$$.log" >&2
    rm -f "/tmp/vh-build-$$.log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "/tmp/vh-build-$$.log"
[ "$1" = build ] && exit 0
cd "$here"
export VH_VERIF="$here"
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/vh" "$@"
