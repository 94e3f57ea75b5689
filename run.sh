#!/bin/bash
# ./run.sh ID [-replay FILE]: builds the check ID against /repo's working tree and runs it
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
. /opt/vp/env.sh
cd "$here/mc" || exit 2
export VERIF_DIR="$here"
lc=$(echo "$id" | tr 'A-Z' 'a-z')
out=$(mktemp -d /tmp/verif-$lc.XXXXXX) || exit 2
trap 'rm -rf -- "$out"' EXIT
violation() {
  mkdir -p "$here/evidence/replay"
  cp "$out/stderr" "$here/evidence/replay/$id-$1.txt"
  echo "VIOLATION property=$id replay=$here/evidence/replay/$id-$1.txt"
  exit 1
}
go build -buildvcs=false -o "$out/check" "./checks/$lc" || { echo "build of $id failed" >&2; exit 2; }
if [ -d "checks/$lc/race" ] && [ $# -eq 0 ]; then
  # free runs under the happens-before race detector, which complement the schedules that the check enumerates
  CGO_ENABLED=1 go build -race -buildvcs=false -o "$out/race" "./checks/$lc/race" || { echo "build of $id for the race detector failed" >&2; exit 2; }
  GORACE="exitcode=66 halt_on_error=1" timeout 200 "$out/race" 2>"$out/stderr"
  rc=$?
  if [ $rc -ne 0 ]; then
    cat "$out/stderr" >&2
    if grep -q 'DATA RACE' "$out/stderr"; then violation race; fi
    if grep -qE '^(panic:|fatal error:)' "$out/stderr" && grep -q 'github.com/bantling/micro' "$out/stderr"; then violation crash; fi
    exit 2
  fi
fi
"$out/check" "$@" 2>"$out/stderr"
rc=$?
cat "$out/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(panic:|fatal error:)' "$out/stderr" && grep -q 'github.com/bantling/micro' "$out/stderr"; then
  # a goroutine the code under test started brought the whole process down
  violation crash
fi
exit $rc
