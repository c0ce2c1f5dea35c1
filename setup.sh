#!/bin/bash
# build the engine and the native replayer, offline
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || exit 1
./build/engine -gencli /repo/cmd/midiasm:harness/cli || exit 1
(cd harness && go build -o ../build/replay ./replay) || exit 1
