#!/bin/bash
# Builds the verifier (bin/gover) unless it is there and newer than its source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/gover ] || [ -n "$(find gover -name '*.go' -newer bin/gover -o -name go.mod -newer bin/gover)" ]; then
	mkdir -p bin
	(cd gover && go build -o ../bin/gover.tmp . && mv ../bin/gover.tmp ../bin/gover) || exit 2
fi
