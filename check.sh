#!/bin/bash
# check.sh <property> [quick|thorough]: builds the verifier and decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" GOFLAGS= GOWORK=off GOTOOLCHAIN=local
export GOCACHE="${VERIF_GOCACHE:-/tmp/verif-gocache}"
. "$here/build.sh" || exit 2
exec "$here/.build/gocv" check "$1" "${2:-${VERIF_TIER:-quick}}"
