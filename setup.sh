#!/bin/bash
# Builds the framework once (warms the build cache) and checks that a run of the
# simulator is repeatable.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
work="$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX")"
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work"
for p in $("$work/simrun" list); do
  a="$("$work/simrun" one -prop "$p" -i 3 | sha256sum)"
  b="$("$work/simrun" one -prop "$p" -i 3 | sha256sum)"
  [ "$a" = "$b" ] || { echo "simulation of $p is not repeatable" >&2; exit 1; }
done
echo "setup done: $("$work/simrun" list | tr '\n' ' ')"
