#!/bin/bash
# Warms the build cache (the checks build what they need themselves).
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
scratch=$(mktemp -d /tmp/mc.XXXXXX) || exit 1
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src" "$scratch/ov" && cp -r "$verif/harness/." "$scratch/src/" && cd "$scratch/src" || exit 1
go run ./cmd/ovl /repo "$(go env GOROOT)" "$scratch/ov" || exit 1
go build -overlay "$scratch/ov/overlay.json" -ldflags=-checklinkname=0 -o "$scratch/mc" ./mc || exit 1
go build -race -gcflags=all=-d=checkptr=0 -overlay "$scratch/ov/overlay.json" -ldflags=-checklinkname=0 -o "$scratch/mcr" ./mc || exit 1
