#!/bin/bash
# selftest.sh DIR: DIR holds a build.  Checks that the simulator behaves as the
# runtime does, on a program that uses all it stands in for, and that a seed
# gives one execution whatever the number of processes.
set -euo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/bin/env.sh"
b=$1
t=$(mktemp -d "${TMPDIR:-/tmp}/verif-self-XXXXXX")
trap 'rm -rf "$t"' EXIT
mod() { # name, where the library is
  printf 'module %s\n\ngo 1.24\n\nrequire (\n\tgithub.com/rossmerr/graphblas v0.0.0\n\tverifsim v0.0.0\n)\n\nreplace github.com/rossmerr/graphblas => %s\n\nreplace verifsim => %s\n' "$1" "$2" "$here/sim"
}
"$b/instr" -src "$here/selftest/src" -out "$t/lib" -sim "$here/sim" -sites "$t/sites"
mkdir "$t/plain" "$t/inst"
cp "$here/selftest/plain/main.go" "$t/plain/"; mod plain "$here/selftest/src" > "$t/plain/go.mod"
cp "$here/selftest/inst/main.go" "$t/inst/"; mod inst "$t/lib" > "$t/inst/go.mod"
go build -C "$t/plain" -o "$t/p" . && go build -C "$t/inst" -o "$t/i" .
"$t/p" > "$t/want"
"$t/i" "$t/want" 400 || { echo "selftest: the simulator differs from the runtime" >&2; exit 1; }
for p in C02 C04 C09 C12; do
  for w in 1 5; do
    mkdir -p "$t/run"
    "$b/plain" check -prop $p -tier quick -seed 7 -scale 0.002 -workers $w -dump "$t/d$w" -sites "$b/sites" -plain "$b/plain" -racebin "$b/race" \
      -evidence "$t/e" -replays "$t/r" -scratch "$t/run" > "$t/out$w" || continue 2 # a violation: for the checks to report
    LC_ALL=C sort "$t/d$w" > "$t/s$w"
  done
  [ -s "$t/s1" ] && cmp "$t/s1" "$t/s5" || { echo "selftest: $p: one seed gives different executions" >&2; exit 1; }
done
echo "selftest: ok"
