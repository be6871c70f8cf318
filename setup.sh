#!/bin/bash
# Builds the harness once so that the Go build cache is warm.
cd "$(dirname "$0")/harness" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
go build -o "$d/h" . && go build -race -o "$d/hr" . && "$d/h" list
