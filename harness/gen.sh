#!/bin/bash
# regenerate registry.go of h and selftest from their harness functions
cd "$(dirname "$0")" || exit 1
for p in h selftest; do (
cd $p
{ echo "package $p"; echo; echo "// Registry lists every harness for native replay (generated by gen.sh)."; echo "var Registry = map[string]func(){"
grep -ho '^func [CX][0-9]*_[A-Za-z0-9_]*()' *.go | sed 's/func \(.*\)()/\1/' | sort | while read -r f; do echo "	\"$f\": $f,"; done; echo "}"; } > registry.go.tmp
gofmt registry.go.tmp > registry.go.new; rm -f registry.go.tmp
cmp -s registry.go.new registry.go && rm -f registry.go.new || mv registry.go.new registry.go
) ; done
