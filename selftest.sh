#!/bin/bash
# selftest.sh [engine flags]: validate the engine on library code (see harness/selftest)
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || exit 2
(cd harness && go build -o ../build/replay ./replay) || exit 2
exec ./build/engine -pkg selftest -prop "${1:-X}" -tier quick -verif "$PWD" -replay "$PWD/build/replay" "${@:2}"
