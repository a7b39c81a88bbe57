#!/bin/bash
# Runs demo_test.go against the tree in the current directory (exit 0: the property holds).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
GO=/opt/veriftools/go1.23.12/bin/go
[ -x "$GO" ] || GO=go
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
mkdir "$T/tmp"
cat >"$T/overlay.json" <<END
{"Replace": {"$PWD/internal/verifdemo/kit_test.go": "$here/kit_test.go", "$PWD/internal/verifdemo/demo_test.go": "$here/demo_test.go"}}
END
"$GO" test -c -vet=off -overlay "$T/overlay.json" -o "$T/demo" ./internal/verifdemo/ || exit 3
cd "$T/tmp" && TMPDIR="$T/tmp" timeout 250 "$T/demo" -test.timeout 240s
