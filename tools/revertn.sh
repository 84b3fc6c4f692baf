#!/bin/bash
# revertn.sh CHECK COMMIT...: undo several fix commits (newest first) in /repo's working tree, run a check, restore.
c=$1; shift
cd /repo && git diff --quiet || exit 9
for x in "$@"; do git show "$x" -R | git apply || { echo cannot revert $x; git checkout -q HEAD -- .; exit 8; }; git reset -q; done
(cd /verif && ./check "$c" 2>&1 | grep -a -E '^VIOLATION|CHECK ERROR|INFRA' )
git checkout -q HEAD -- .
