#!/bin/bash
# check.sh PROPERTY [quick|thorough] : build the simulator from /repo's working tree and run one property.
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
W=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
mkdir -p evidence replays
rm -f -- "evidence/$ID.json"
PAIR=
case $ID in X02|K08) PAIR=pair ;; esac
if ! ./build.sh "$W" $PAIR > "$W/build.log" 2>&1; then
	echo "cannot build the simulator from /repo:"
	tail -30 "$W/build.log"
	exit 2
fi
export TMPDIR=$W
ARGS="-prop $ID -tier $TIER -seed $SEED -known $HERE/known-findings.txt -evidence $HERE/evidence/$ID.json -replays $HERE/replays"
[ -n "$PAIR" ] && ARGS="$ARGS -portable $W/simrun-portable"
"$W/simrun" $ARGS
