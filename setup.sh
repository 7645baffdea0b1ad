#!/bin/bash
# Builds the checker once to show that it builds and to warm Go's build cache; every check builds it again.
set -e
cd "$(dirname "$0")/gosym"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
out=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$out"' EXIT
go vet . || true
go build -o "$out/gosym" .
cd ../harness && go build ./...
