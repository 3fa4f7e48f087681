#!/bin/bash
# Builds the checker once, which also shows that everything needed is there.
set -eu
root=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX")
trap 'rm -rf "$work"' EXIT
cd "$root/mc"
go vet ./...
go test ./model
go test -c -o "$work/mc" .
