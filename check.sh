#!/bin/bash
# check.sh ID [tier]: decides one property of /repo's current source.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
id=$1
tier=${VERIF_TIER:-${2:-quick}}
if ! (cd grcheck && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$here/bin/grcheck" .) 2>bin.log; then
  cat bin.log
  rm -f bin.log
  echo "VIOLATION property=$id replay=$here/grcheck"
  exit 1
fi
rm -f bin.log
exec "$here/bin/grcheck" -p "$id" -tier "$tier" -repo "${GRCHECK_REPO:-/repo}" -out "$here/evidence" -known "$here/known-findings.json"
