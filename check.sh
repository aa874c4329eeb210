#!/bin/bash
# check.sh PROPERTY: decides one property of /repo's current working tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export HOME=${HOME:-/root}
bash "$V/build.sh" >&2 || exit 2
"$V/bin/govc" check -p "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}"
R=$?
if [ $R != 0 ] && [ $R != 1 ]; then # the verifier itself died: once more
  "$V/bin/govc" check -p "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}"
  R=$?
fi
exit $R
