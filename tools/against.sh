#!/bin/bash
# development tool: runs a property against another copy of the repository.
# usage: against.sh DIR PROP [harness arguments]
set -u
root=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
dir=$1 prop=$2; shift 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d /tmp/verif-against.XXXXXX)
trap '/bin/rm -rf "$tmp"' EXIT
sed "s#=> /repo#=> $dir#" "$root/harness/go.mod" > "$tmp/go.mod"; cp "$root/harness/go.sum" "$tmp/go.sum"
mkdir -p "$tmp/root/evidence"; cp "$root/known_findings.json" "$tmp/root/"
flags=(); extra=()
[ "$prop" = C27 ] && { flags+=(-race); extra+=(-racelog "$tmp/race.log" -shards 2); }
cd "$root/harness" && go build -modfile "$tmp/go.mod" "${flags[@]}" -o "$tmp/harness" . || exit 3
"$tmp/harness" -prop "$prop" -tier quick -seed "${VERIF_SEED:-1}" -root "$tmp/root" "${extra[@]}" "$@"
