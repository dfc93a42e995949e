#!/bin/bash
# build.sh OUT: compiles the harness against /repo's current working tree, leaving both trees as they are.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${VERIF_REPO:-/repo} # another tree only for development
. /opt/vp/env.sh >/dev/null 2>&1 || true
ov=$(mktemp /tmp/verif-ov.XXXXXX.json)
trap 'rm -f "$ov"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/harness/*.go; do
    printf '%s"%s/verifpbt/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} >"$ov"
cd "$repo"
go build -overlay "$ov" -o "$out" ./verifpbt
