#!/bin/bash
# run with cwd = the repository: runs the demonstration test beside this script in a scratch GOPATH copy of it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
p="$t/src/github.com/ryanbressler/CloudForest"
mkdir -p "$p/sortby" "$p/stats"
cp ./*.go "$p/" && cp sortby/*.go "$p/sortby/" && cp stats/*.go "$p/stats/"
find "$p" -name '*_test.go' -delete
cp "$here/demo_test.go" "$p/demo_test.go"
cd "$p" || exit 3
GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GOPATH="$t" GOCACHE="$t/cache" HOME="$t" GODEBUG=randautoseed=0,randseednop=0 \
  timeout 250 go test -vet=off -count=1 -timeout 200s .
