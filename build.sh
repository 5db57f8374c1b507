#!/bin/bash
# builds the verifier from the committed sources
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOFLAGS= GOWORK=off GOTOOLCHAIN=local GO111MODULE=on
export GOCACHE="${VERIF_GOCACHE:-/tmp/verif-gocache}"
mkdir -p "$here/.build"
( cd "$here/gocv" && go build -o "$here/.build/gocv.$$" . && mv "$here/.build/gocv.$$" "$here/.build/gocv" ) || { echo "cannot build gocv" >&2; exit 2; }
