#!/bin/bash
# replay.sh FILE: replays a failing case against /repo's working tree and prints every step.
here=$(cd "$(dirname "$0")/.." && pwd)
work=$(mktemp -d /tmp/verif-replay.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work/pbt" || exit 2
VERIF_KNOWN="$here/known-findings.txt" "$work/pbt" replay "$1"
