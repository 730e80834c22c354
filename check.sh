#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra harness arguments]
# Builds the harness against /repo's current working tree and runs one property.
set -u
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
seed=${VERIF_SEED:-1}
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap '/bin/rm -rf "$tmp"' EXIT
mkdir -p "$root/evidence"
extra=()
flags=()
if [ "$prop" = C27 ]; then
  flags+=(-race)
  extra+=(-racelog "$tmp/race.log" -shards 2)
fi
# the module files are copied so that nothing committed is rewritten
cp "$root/harness/go.mod" "$tmp/go.mod" && cp "$root/harness/go.sum" "$tmp/go.sum" || exit 3
cd "$root/harness" || exit 3
if ! go build -modfile "$tmp/go.mod" "${flags[@]}" -o "$tmp/harness" . ; then
  echo "build failed" >&2
  exit 3
fi
"$tmp/harness" -prop "$prop" -tier "$tier" -seed "$seed" -root "$root" "${extra[@]}" "$@"
exit $?
