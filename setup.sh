#!/bin/bash
# builds the symbolic executor from the committed sources
cd "$(dirname "$0")/gosym" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin ../evidence
go build -o bin/gosym .
