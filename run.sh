#!/bin/bash
# run.sh PROPERTY [quick|thorough] [flags]: builds the check of a property from /repo's working tree and runs it.
# run.sh replay FILE: runs one recorded execution, with its trace.
set -u
export GORACE=atexit_sleep_ms=0
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
group() {
  case "$1" in
    C0[1-9]|C1[0-9]|C2[01]|C39) echo collections ;;
    C2[2-6]|C38) echo chans ;;
    C2[7-9]|C3[0-7]) echo pure ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}
work="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
child=
trap 'kill $child 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 130' INT TERM HUP
mkdir "$work/tmp" "$work/run"
if [ "${1:-}" = replay ]; then
  prop=$(sed -n 's/^ *"Property": "\(.*\)",$/\1/p' "$2" | head -1)
  g=$(group "$prop") || exit 2
  ./build.sh "$work" "$g" race || exit 2
  TMPDIR="$work/tmp" "$work/check-race" -replay "$2" -work "$work/run" -out "$here"
  exit $?
fi
prop="${1:?property}"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift 2>/dev/null
g=$(group "$prop") || exit 2
if ! ./build.sh "$work" "$g" race > "$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
TMPDIR="$work/tmp" "$work/check-race" -prop "$prop" -tier "$tier" -work "$work/run" -out "$here" "$@" &
child=$!
wait $child
exit $?
