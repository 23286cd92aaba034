#!/bin/bash
# ./check.sh setup                      builds the harness once
# ./check.sh <property> quick|thorough  decides one property on /repo's working tree
# ./check.sh <property> replay FILE     runs the case of a replay file again
# The harness is built from /repo's working tree every time, into .build (ignored by git).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOSUMDB=off CGO_ENABLED=1
export PATH=$PATH:/usr/local/go/bin
build() { # name, flags...
  local out=$1
  shift
  (cd "$here/harness" && go build -mod=readonly -buildvcs=false "$@" -o "$out" .) || {
    echo "the harness does not build against /repo" >&2
    exit 2
  }
}
mkdir -p "$here/.build" "$here/evidence"
tmp=$(mktemp -d "$here/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
build "$tmp/harness"
case "$1" in
setup)
  build "$tmp/race" -race
  exit 0
  ;;
esac
race=$tmp/harness
if "$tmp/harness" needs-race "$1"; then
  build "$tmp/race" -race
  race=$tmp/race
fi
case "$2" in
quick | thorough) "$tmp/harness" check "$1" "$2" "$here" "$race" ;;
replay) "$race" replay "$1" "$3" ;;
*) echo "usage: $0 <property> quick|thorough|replay [file]" >&2; exit 2 ;;
esac
