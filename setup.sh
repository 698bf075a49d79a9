#!/bin/bash
# Builds the analyser from the committed (vendored) sources, offline.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
cd grcheck && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$here/bin/grcheck" .
