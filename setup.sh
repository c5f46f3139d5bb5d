#!/bin/bash
# Builds the analyzer once (warms the build cache).
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS= GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/.bin" && cd "$here/analyzer" && go build -mod=vendor -o "$here/.bin/ana" .
