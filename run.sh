#!/bin/bash
# run.sh ID: builds the monitor together with /repo's current working tree and runs the check of property ID.
# run.sh build: only builds (warms the build cache). run.sh replay FILE: repeats a recorded case.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
V=$(cd "$(dirname "$0")" && pwd) || exit 3
export SM_VERIF=$V SM_GOLDEN=$V/harness/golden
D=$(mktemp -d "$V/build/run.XXXXXX" 2>/dev/null || { mkdir -p "$V/build"; mktemp -d "$V/build/run.XXXXXX"; }) || exit 3
trap 'rm -rf "$D"' EXIT
cp "$V/harness/"*.go "$V/harness/go.mod" "$V/harness/go.sum" "$D/" || exit 3
build() { (cd "$D" && go build $1 -o "$D/$2" . ) >"$D/log" 2>&1 || { cat "$D/log" >&2; echo "run.sh: the build failed" >&2; exit 3; }; }
case "$1" in
build) build "" sm; build -race smr; exit 0 ;;
replay)
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 3
  args=(replay "$(realpath "$2")") ;;
*) id=$1; args=(check "$1") ;;
esac
if grep -qx "$id" "$V/harness/race.txt"; then build -race sm; else build "" sm; fi
cd "$V" || exit 3
"$D/sm" "${args[@]}"
