#!/bin/bash
# Builds every check once (the checks build again from /repo's tree) and tests the engine against programs whose
# set of behaviours is known.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/verif.XXXXXXXX)"
trap 'rm -rf "$work"' EXIT
cd "$here"
for g in selftest collections chans pure; do
  ./build.sh "$work/$g" "$g" race
done
mkdir "$work/run"
tools/selftest.sh
