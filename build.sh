#!/bin/bash
# build.sh OUT : instrument /repo's working tree into an overlay and build the simulator.
# Everything is written below OUT; /repo is not touched.
set -e
mkdir -p "$1"; OUT=$(cd "$1" && pwd)
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GO111MODULE=on GOSUMDB=off
export HOME=${HOME:-/root}
mkdir -p "$OUT"
(cd "$HERE/sim" && GOWORK=off go build -o "$OUT/instr" ./cmd/instr)
cat > "$OUT/go.work" <<W
go 1.27

use (
	$HERE/sim
	$REPO
	$REPO/kem/mkem
)
W
[ -f /opt/vp/go.work.sum ] && cp /opt/vp/go.work.sum "$OUT/go.work.sum"
export GOWORK=$OUT/go.work
"$OUT/instr" -repo "$REPO" -rt "$HERE/sim/rt" -out "$OUT/ov"
(cd "$HERE/sim" && go build -overlay "$OUT/ov/overlay.json" -o "$OUT/simrun" ./cmd/simrun)
if [ "$2" = pair ]; then
	"$OUT/instr" -repo "$REPO" -rt "$HERE/sim/rt" -out "$OUT/ovp" -portable
	(cd "$HERE/sim" && go build -overlay "$OUT/ovp/overlay.json" -o "$OUT/simrun-portable" ./cmd/simrun)
fi
