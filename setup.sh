#!/bin/bash
# Offline preparation: warm the Go build cache for the driver and check the specification parses.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
cp -a harness "$d/src"
(cd "$d/src" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$d/dxh" . && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 go build -race -o "$d/dxh_race" .)
rm -rf "$d"
mkdir -p evidence
