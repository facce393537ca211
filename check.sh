#!/bin/bash
# Decides one property: check.sh PROPERTY [quick|thorough]
# Rebuilds the simulator from /repo's working tree (VERIF_REPO overrides the
# location for development), runs the seeded search, writes evidence/<id>.json.
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: error.
t0=$(date +%s%3N)
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME="${HOME:-/root}"
work="$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work" >&2 || { echo "build failed" >&2; exit 2; }
"$work/simrun" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -t0 "$t0" \
  ${VERIF_SECS:+-secs "$VERIF_SECS"} \
  -evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/known_findings.json"
