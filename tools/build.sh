#!/bin/bash
# Builds the engine from the committed sources, offline.
set -e
cd "$(dirname "$0")/../engine"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
go build -o ../bin/gosym .
