#!/bin/bash
# selftest.sh: the engine must pass the programs named ok and find what is wrong with those named bad.
set -u
export GORACE=atexit_sleep_ms=0
here="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d /tmp/verif.XXXXXXXX)"
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work" selftest race || exit 2
mkdir "$work/run" "$work/tmp"
bad=0
for p in $(grep -o 'Prop: "[^"]*"' "$here/checks/selftest/main.go" | sed 's/.*"\(.*\)"/\1/' | sort -u); do
  TMPDIR="$work/tmp" "$work/check-race" -prop "$p" -tier quick -work "$work/run" -out "$work" > "$work/log" 2>&1
  rc=$?
  case "$p" in BAD*) want=1 ;; *) want=0 ;; esac
  if [ $rc != $want ]; then
    echo "self test $p ended with $rc, not $want"; cat "$work/log"; bad=1
  fi
done
[ $bad = 0 ] && echo "self test passed"
exit $bad
