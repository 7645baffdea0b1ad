#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra gosym flags]: decide one property on /repo's current tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
(cd "$here/gosym" && go build -o "$work/gosym" .) || { echo "cannot build the checker"; exit 3; }
mkdir -p "$here/out" "$here/evidence"
"$work/gosym" -harness "$here/harness" -prop "$prop" -tier "$tier" -evidence "$here/evidence/$prop.json" -out "$here/out" -v "$@"
rc=$?
exit $rc
