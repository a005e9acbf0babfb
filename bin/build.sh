#!/bin/bash
# build.sh DIR [plain|race|both]: instruments /repo's working tree and builds
# the harness into DIR.
set -euo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/bin/env.sh"
repo=${VERIF_REPO:-/repo}
out=$1
what=${2:-both}
mkdir -p "$out"
go build -C "$here/instrument" -o "$out/instr" .
"$out/instr" -src "$repo" -out "$out/lib" -sim "$here/sim" -sites "$out/sites"
cat > "$out/go.mod" <<EOF
module verifharness

go 1.24

require (
	github.com/rossmerr/graphblas v0.0.0
	verifsim v0.0.0
)

replace github.com/rossmerr/graphblas => $out/lib

replace verifsim => $here/sim
EOF
: > "$out/go.sum"
pids=()
if [ "$what" != race ]; then
  go build -C "$here/harness" -modfile="$out/go.mod" -o "$out/plain" . & pids+=($!)
fi
if [ "$what" != plain ]; then
  go build -C "$here/harness" -race -modfile="$out/go.mod" -o "$out/race" . & pids+=($!)
fi
for p in "${pids[@]}"; do wait "$p"; done
