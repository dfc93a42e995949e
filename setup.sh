#!/bin/bash
# Compiles the harness once, so that the packages it needs are in the build cache before the checks run.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$here/build.sh" "$work/pbt"
