#!/bin/bash
# Builds the verifier from its committed source if it is missing or older than it.
cd "$(dirname "$0")" || exit 2
if [ -x bin/govc ] && [ -z "$(find govc -newer bin/govc -name '*.go')" ]; then exit 0; fi
mkdir -p bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on
cd govc && T=$(mktemp ../bin/govc.XXXXXX) && go build -o "$T" . && mv -f "$T" ../bin/govc
