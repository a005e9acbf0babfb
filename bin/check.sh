#!/bin/bash
# check.sh PROPERTY [quick|thorough] [harness flags]
# exit 0: held on everything explored; 1: violation; 2: the check itself failed
set -uo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift 2>/dev/null || true
t0=$(date +%s%3N)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX")
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
if ! bash "$here/bin/build.sh" "$scratch/b" > "$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  echo "CHECK-ERROR: build failed" >&2
  exit 2
fi
mkdir -p "$here/evidence" "$here/replays" "$scratch/run"
"$scratch/b/plain" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -sites "$scratch/b/sites" \
  -plain "$scratch/b/plain" -racebin "$scratch/b/race" -evidence "$here/evidence/$prop.json" \
  -replays "$here/replays" -scratch "$scratch/run" -t0 "$t0" "$@"
