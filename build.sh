#!/bin/bash
# Builds .build/joesim: the simulator, with /repo's working tree and a standard
# library whose nondeterminism is behind hooks (go build -overlay).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
goroot=$(go env GOROOT)
mkdir -p "$here/.build/overlay"
python3 "$here/sim/overlay/gen.py" "$goroot" "$here/.build/overlay"
# go.mod points at /repo; a copy keeps the committed files as they are
cp "$here/sim/go.mod" "$here/.build/go.mod"
cp "$here/sim/go.sum" "$here/.build/go.sum"
cd "$here/sim"
go build -modfile "$here/.build/go.mod" -overlay "$here/.build/overlay/overlay.json" -o "$here/.build/joesim" ./cmd/joesim
