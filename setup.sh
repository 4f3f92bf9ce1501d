#!/bin/bash
# Warms the build cache; every check builds from /repo's working tree itself.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$HERE/evidence" "$HERE/replays"
"$HERE/build.sh" "$W" pair
