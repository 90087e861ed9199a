#!/bin/bash
# Runs demo_test.go (beside this file) as an extra test of the package in the current directory.
H=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
{
  printf '{"Replace":{'
  printf '"%s/zz_seed_help_test.go":"%s/help_test.go",' "$PWD" "$H"
  printf '"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$H"
} > "$T/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$T/o.json" -run '^TestSeededDemo$' .
