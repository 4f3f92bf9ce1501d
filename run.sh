#!/bin/bash
# developer helper: run.sh ID RUNS [flags]
cd /verif
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p evidence replays
./build.sh build >/dev/null || exit 2
id=$1; n=$2; shift 2
time ./build/simrun -prop $id -runs $n -known known-findings.txt -evidence evidence/$id.json -replays replays "$@"
