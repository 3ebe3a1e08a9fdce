#!/bin/bash
# reverts.sh: takes every fix recorded in known_findings.txt back, one at a time, in a copy, and runs the quick check
# of its property there; each line should say rc=1. For development.
cd "$(dirname "$0")/.." || exit 9
w="$(mktemp -d /tmp/verif.XXXXXXXX)"
trap 'rm -rf "$w"' EXIT
sed -n 's/^fixed: property=\(C[0-9]*\) \([0-9a-f]*\) .*/\1 \2/p' known_findings.txt | sort -u > "$w/list"
export w
one() { git -C "${VERIF_REPO:-/repo}" show "$2" > "$w/$1.$2.patch"; echo "$2 $(tools/try.sh "$w/$1.$2.patch" "$1" reverse)"; }
export -f one
xargs -a "$w/list" -P "${JOBS:-2}" -L 1 bash -c 'one "$@"' _
