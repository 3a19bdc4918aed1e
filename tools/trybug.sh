#!/bin/bash
# trybug.sh BUG PROPERTY [args]: runs a check on a scratch copy with a planted change
here=$(cd "$(dirname "$0")/.." && pwd)
wt=/tmp/try-$1-$2
rm -rf "$wt"; cp -a /repo "$wt"; git -C "$wt" apply "$here/seeded/$1/patch.diff" || exit 9
VERIF_REPO="$wt" "$here/check" "$2" "${@:3}"
rc=$?
rm -rf "$wt"
echo "BUG=$1 PROPERTY=$2 rc=$rc"
