#!/bin/bash
# usage: run.sh ID   decide property ID from /repo's current source (builds the analyser when needed)
#        run.sh --build
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
bin=.bin/tpcheck
mkdir -p .bin evidence
if [ ! -x $bin ] || [ -n "$(find tpcheck -newer $bin -type f -print -quit)" ]; then
	(cd tpcheck && go build -o ../$bin.new . ) && mv $bin.new $bin || { echo "cannot build the analyser"; exit 2; }
fi
[ "$1" = --build ] && exit 0
# one call may list several properties (comma separated)
exec $bin -repo "${TP_REPO:-/repo}" -verif "$PWD" -prop "$1" ${2:+"$2"}
