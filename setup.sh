#!/bin/bash
# Builds the engine (offline). Harnesses are compiled from /repo's tree by each check.
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/engine .
