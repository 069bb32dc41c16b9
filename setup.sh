#!/bin/bash
# Builds the verifier and the replay harness (checks rebuild them on demand as well).
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cd "$(dirname "$0")" && mkdir -p build && (cd goverif && go build -o ../build/goverif .) && (cd harness && go build -o ../build/harness .)
