#!/bin/bash
# usage: run.sh <property> quick|thorough | run.sh replay FILE | run.sh warm
# Builds the checker from /repo's current working tree and runs one check.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
B=$(mktemp -d "${TMPDIR:-/tmp}/goidcmc-build.XXXXXX") || exit 3
trap 'rm -rf "$B"' EXIT
cp -r "$V/mc" "$B/mc" || exit 3
id=$1
# C20 needs the JWK endpoint, whose dependency is not available: it is built against a stand-in.
jwk=0
[ "$id" = C20 ] && jwk=1
[ "$id" = replay ] && grep -q '"property": "C20"' "$2" && jwk=1
args=()
ov=
if [ $jwk = 1 ]; then
  args=(-tags jwk -modfile "$B/mc/jwk.mod")
else
  ov='"/repo/jwk_endpoint.go": ""'
fi
if [ ! -f /repo/go.mod ]; then
  [ -n "$ov" ] && ov="$ov, "
  ov="$ov\"/repo/go.mod\": \"$V/mc/repo.mod\", \"/repo/go.sum\": \"$V/mc/repo.sum\""
fi
printf '{"Replace": {%s}}\n' "$ov" > "$B/overlay.json"
( cd "$B/mc" && go build "${args[@]}" -overlay "$B/overlay.json" -o "$B/bin" . ) || { echo "build failed" >&2; exit 3; }
# C17 and C24 also run a race-detector build.
if [ "$id" = C17 ] || [ "$id" = C24 ] || { [ "$id" = replay ] && grep -qE '"property": "C(17|24)"' "$2"; }; then
  ( cd "$B/mc" && CGO_ENABLED=1 go build -race -overlay "$B/overlay.json" -o "$B/race" . ) && export MC_RACE_BIN="$B/race"
fi
export MC_SRC="$B/mc" MC_OVERLAY="$B/overlay.json"
case "$id" in
  warm) exit 0 ;;
  literals) "$B/bin" literals ;;
  replay) "$B/bin" replay "$2" ;;
  *) "$B/bin" run "$id" "${2:-quick}" ;;
esac
exit $?
