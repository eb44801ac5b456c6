#!/bin/bash
# Warm the build cache; every check rebuilds from /repo's working tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
source "$V/build.sh" || exit 2
mkdir -p "$V/.build"
W=$(mktemp -d "$V/.build/setup.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
build_sim 1 "$W" || exit 2
echo "setup done"
