#!/bin/bash
# Replays a violation: replay.sh [-v] FILE
# Exit 1: the recorded execution and violation were reproduced exactly;
# 0: no violation on the current tree; 3: a violation, but another execution.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work" >&2 || exit 2
"$work/simrun" replay "$@"
