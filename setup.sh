#!/bin/bash
# Builds the symbolic engine from its committed sources (offline; x/tools is vendored).
set -e
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
(cd "$ROOT/engine" && go build -mod=vendor -o "$ROOT/bin/symx" .)
# warm the build cache for the native replay programs; failures here are not fatal
(cd "$ROOT/harness" && GOFLAGS=-mod=mod go build ./... ) || true
