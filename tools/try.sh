#!/bin/bash
# try.sh PATCH PROP [reverse]: runs the quick check of PROP against a copy of /repo with PATCH applied (or, with
# "reverse", taken back). For development; prints one line.
set -u
export GORACE=atexit_sleep_ms=0
here="$(cd "$(dirname "$0")/.." && pwd)"
patch="$(readlink -f "$1")"; prop="$2"
w="$(mktemp -d /tmp/verif.XXXXXXXX)"
trap 'rm -rf "$w"' EXIT
git -C /repo archive --prefix=r/ HEAD | tar -x -C "$w"
cd "$w/r" || exit 9
if [ "${3:-}" = reverse ]; then
  patch -s -R -p1 -F3 < "$patch" || { echo "$prop cannot revert $1"; exit 8; }
else
  patch -s -p1 -F0 < "$patch" || { echo "$prop cannot apply $1"; exit 8; }
fi
case "$prop" in C0[1-9]|C1[0-9]|C2[01]|C39) g=collections ;; C2[2-6]|C38) g=chans ;; *) g=pure ;; esac
mkdir "$w/b" "$w/run" "$w/tmp" "$w/out"
cp "$here/known_findings.txt" "$w/out/"
cd "$here"
VERIF_REPO="$w/r" ./build.sh "$w/b" $g race > "$w/log" 2>&1 || { echo "$prop build failed: $(tail -3 "$w/log")"; exit 7; }
s=$(date +%s)
TMPDIR="$w/tmp" timeout 900 "$w/b/check-race" -prop "$prop" -tier "${TIER:-quick}" -work "$w/run" -out "$w/out" > "$w/log" 2>&1
rc=$?
echo "$prop rc=$rc $(($(date +%s)-s))s $(grep -m1 '^scenario' "$w/log" | cut -c1-260)$( [ $rc -gt 1 ] && tail -3 "$w/log")"
exit $rc
