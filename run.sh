#!/bin/bash
# usage: run.sh PROPERTY   (tier: $VERIF_TIER, quick by default)
# Builds the checker (a no-op when it is up to date) and runs it on /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMAXPROCS=8
export PATH=$PATH:/usr/local/go/bin
mkdir -p bin evidence
(cd checker && go build -o ../bin/checker .) >bin/build.log 2>&1 || { cat bin/build.log >&2; exit 2; }
[ "$1" = setup ] && exit 0
exec ./bin/checker -prop "$1" -repo /repo -out "$PWD/evidence" -known "$PWD/known_findings.txt"
