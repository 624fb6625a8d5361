#!/bin/sh
# Builds the verifier (Go only, vendored dependencies, offline).
cd "$(dirname "$0")/gov" || exit 3
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off go build -o ../bin/gov .
