#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [CASE]
# Builds the model checker against /repo's current working tree and decides
# one property. Exit 0: it held; 1 with a VIOLATION line: it is broken.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case=$3
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
scratch=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src" "$scratch/ov" "$scratch/run" || exit 3
# Build from a copy so that the go command never touches committed files.
cp -r "$verif/harness/." "$scratch/src/" || exit 3
cd "$scratch/src" || exit 3
export MC_GOROOT=$(go env GOROOT)
go run ./cmd/ovl /repo "$MC_GOROOT" "$scratch/ov" || exit 3
flags=""
overlay=$scratch/ov/overlay.json
case " C20 C21 C22 " in *" $id "*) flags="-race -gcflags=all=-d=checkptr=0" ;; esac
build() {
  go build $flags -overlay "$overlay" -ldflags=-checklinkname=0 -o "$scratch/mc" ./mc
}
broken() { # a violation found while preparing
  echo "$id: $1"
  mkdir -p "$verif/evidence"
  python3 - "$1" "$id" "${2:-/dev/null}" >"$verif/evidence/$id.replay0.json" <<'PY'
import json, sys
print(json.dumps({"property": sys.argv[2], "what": sys.argv[1], "log": open(sys.argv[3], errors="replace").read()[-5000:]}, indent=1))
PY
  head -c 2000 "${2:-/dev/null}"
  echo
  echo "VIOLATION property=$id replay=$verif/evidence/$id.replay0.json"
  exit 1
}
if [ "$id" = C25 ]; then
  . "$verif/tools/regen.sh"
  export MC_GENTEST=$scratch/gen/gentest
fi
build || { sleep 1; build; } || exit 3
cli() { (unset GOFLAGS; . /opt/vp/env.sh; go build -o "$scratch/jsval" ./cmd/jsval); }
if [ "$id" = C24 ]; then
  cli || { sleep 1; cli; } || exit 3
  export MC_CLI=$scratch/jsval
fi
export MC_OVERLAY=$overlay MC_SRC=$scratch/src
cd "$verif" || exit 3
"$scratch/mc" check "$id" "$tier" "$verif" "$scratch/run" "$case"
exit $?
