#!/bin/bash
# sweep.sh SECONDS SEED PROP... : development sweep with several seeds
here="$(cd "$(dirname "$0")/.." && pwd)"
secs=$1; seed=$2; shift 2
w=$(mktemp -d /tmp/sweep.XXXX); trap 'rm -rf $w' EXIT
"$here/build.sh" $w || exit 2
for p in ${@:-$($w/simrun list)}; do
  $w/simrun check -prop $p -seed $seed -secs $secs -evidence $w/e.json -replays /tmp/sweep-replays -known "$here/known_findings.json" 2>&1 | tail -4
done
