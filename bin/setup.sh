#!/bin/bash
# Builds everything once from the committed files and makes a short self-test:
# the same seeds give the same executions whatever the number of processes.
set -euo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
trap 'rm -rf "$scratch"' EXIT
bash "$here/bin/build.sh" "$scratch/b"
echo "setup: build ok"
bash "$here/bin/selftest.sh" "$scratch/b"
