#!/bin/bash
# trybug.sh ID PROP... : apply the planted change to /repo, run the quick checks, undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for p in "$@"; do /verif/check.sh $p quick 2>&1 | grep -E "VIOLATION|KNOWN|quiet|error|complete" | head -5; echo "== $id $p rc=${PIPESTATUS[0]}"; done
git -C /repo checkout -q -- .
