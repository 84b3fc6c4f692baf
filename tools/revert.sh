#!/bin/bash
# revert.sh COMMIT CHECK: undo one fix commit in /repo's working tree, run a check, restore.
cd /repo && git diff --quiet || exit 9
git show "$1" -R | git apply -3 2>/dev/null || git show "$1" -R | git apply --recount -C1 || { git checkout -q HEAD -- .; git reset -q; echo cannot revert; exit 8; }
git reset -q
(cd /verif && ./check "$2" 2>&1 | grep -a -E '^VIOLATION|CHECK ERROR|INFRA' )
git checkout -q HEAD -- .
