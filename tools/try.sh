#!/bin/bash
# try.sh DIR ID...: development only; runs checks against a scratch copy DIR of /repo instead of /repo.
D=$1; shift
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOPATH=/root/go
V=$(cd "$(dirname "$0")/.." && pwd)
B=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$B"' EXIT
cp "$V"/harness/*.go "$V"/harness/go.mod "$V"/harness/go.sum "$B"/
sed -i "s#=> /repo#=> $(realpath "$D")#" "$B/go.mod"
export SM_VERIF=$B SM_GOLDEN=$V/harness/golden
(cd "$B" && go build -o sm . ) || exit 3
for i in "$@"; do
  bin=sm
  if grep -qx "$i" "$V/harness/race.txt"; then [ -x "$B/smr" ] || (cd "$B" && go build -race -o smr .) || exit 3; bin=smr; fi
  "$B/$bin" check "$i" 2>&1 | cut -c1-400; 
done
