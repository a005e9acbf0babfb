#!/bin/bash
# replay.sh FILE: repeats a recorded run exactly; exit 1 if it fails as recorded
set -uo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
file=$(realpath "$1")
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-replay-XXXXXX")
trap 'rm -rf "$scratch"' EXIT
if ! bash "$here/bin/build.sh" "$scratch/b" > "$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  exit 2
fi
mkdir -p "$scratch/run"
"$scratch/b/plain" replay -sites "$scratch/b/sites" -plain "$scratch/b/plain" -racebin "$scratch/b/race" -scratch "$scratch/run" "$file"
