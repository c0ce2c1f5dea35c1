#!/bin/bash
# check.sh ID [tier] [engine flags...]: decide one property against /repo's current working tree
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || exit 2
# the command line program, as a package that the harnesses can import
./build/engine -gencli "$(cd harness && go list -m -f '{{.Dir}}' github.com/transcriptaze/midiasm)/cmd/midiasm:$V/harness/cli" || rm -f harness/cli/*.go
H=$V/harness R=$V/build/replay
if ! (cd harness && go build -o ../build/replay ./replay) 2>build/replay.err; then
  # the harnesses of another property do not compile against the current tree:
  # leave out the files with errors, as long as this property's own is not one
  H=$V/build/harness-$ID R=$V/build/replay-$ID
  rm -rf "$H"; cp -r harness "$H"
  own=$(echo "$ID" | tr C c).go
  for _ in 1 2 3 4 5 6 7 8; do
    bash "$H/gen.sh"
    (cd "$H" && go build -gcflags=-e -o "$R" ./replay) 2>build/replay.err && break
    bad=$(grep -o '^h/[a-z0-9]*\.go' build/replay.err | sort -u | grep -v 'registry.go')
    if [ -z "$bad" ] || echo "$bad" | grep -qx "h/$own\|h/gen.go"; then cat build/replay.err >&2; exit 2; fi
    for f in $bad; do rm -f "$H/$f"; done
    R=$V/build/replay-$ID
  done
  [ -x "$R" ] || exit 2
fi
exec ./build/engine -prop "$ID" -tier "$TIER" -verif "$V" -hdir "$H" -replay "$R" "$@"
