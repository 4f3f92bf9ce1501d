#!/bin/bash
# replay.sh FILE [-v] : execute a replay file against /repo's working tree; exits 1 if it still violates.
F=$(readlink -f "$1") || exit 2
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
W=$(mktemp -d /tmp/verif-replay.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
PAIR=
grep -q '"pair:' "$F" && PAIR=pair
./build.sh "$W" $PAIR > "$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 2; }
export TMPDIR=$W
"$W/simrun" -exec "$F" -known known-findings.txt ${PAIR:+-portable "$W/simrun-portable"} $2
