#!/bin/bash
# check.sh PROPERTY: builds the harness from /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER (quick | thorough) come from the environment; a second argument overrides the tier.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
if ! "$here/build.sh" "$work/pbt"; then
  echo "the harness does not build against /repo" >&2
  exit 2
fi
export VERIF_KNOWN="$here/known-findings.txt"
export TMPDIR="$work"
"$work/pbt" run -property "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here"
rc=$?
exit $rc
