#!/bin/bash
# Builds every check once, so that the later builds only redo what changed.
cd "$(dirname "$0")/harness" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=1
set -e
go build ./...
for d in cmd/*; do
	if [ -e "$d/RACE" ]; then go build -race -o /dev/null "./$d"; fi
done
