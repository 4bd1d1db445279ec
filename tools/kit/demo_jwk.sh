#!/bin/bash
# Builds main.go and kit.go as a program inside /repo's module (by overlay) and runs it.
# The JWK library of the project is not available: jwx/ stands in for it.
D=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
R=$(pwd)
cp go.mod "$T/d.mod"; cp go.sum "$T/d.sum"; cp -r "$D/jwx" "$T/jwx"
printf '\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => %s/jwx\n' "$T" >> "$T/d.mod"
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go", "%s/zzdemo/kit.go": "%s/kit.go"}}\n' "$R" "$D" "$R" "$D" > "$T/overlay.json"
go build -modfile "$T/d.mod" -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo || exit 3
timeout 120 "$T/demo"
