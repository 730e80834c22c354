#!/bin/bash
# development tool: reverts one commit of /repo in a scratch copy and runs properties against it.
# usage: revert.sh COMMIT PROP...
c=$1; shift
d=$(mktemp -d /tmp/verif-revert.XXXXXX)
git -C /repo worktree add -q --detach "$d/r" HEAD && git -C "$d/r" revert -n "$c" >/dev/null 2>&1 || echo "conflict reverting $c"
for p in "$@"; do echo "== $c $(git -C /repo log -1 --format=%s $c | cut -c1-60) -> $p: $("$(dirname "$0")/against.sh" "$d/r" "$p" 2>&1 | cut -c1-200 | grep -v KNOWN | head -1)"; done
git -C /repo worktree remove --force "$d/r"; rmdir "$d"
