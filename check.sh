#!/bin/bash
# check.sh PROP: decide one property of /repo's current working tree
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
(cd "$here/gvc" && GOFLAGS=-mod=mod go build -o "$bin/gvc" .) || exit 3
GVC_VERIF="$here" "$bin/gvc" check "$1"
