#!/bin/bash
# sense.sh PATCH CHECK...   apply PATCH (or -R COMMIT: revert a commit) to /repo,
# run the checks, undo.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "$1" = "-R" ]; then git show "$2" | git apply -R || exit 2; shift 2
else git apply "$1" || exit 2; shift; fi
for c in "$@"; do
  out=$(cd /verif && timeout 800 python3 check.py run $c 2>/dev/null); rc=$?
  echo "$c rc=$rc $(echo "$out" | grep -v '^KNOWN' | cut -c1-${W:-250} | tail -${L:-3})"
done
git checkout -q -- .
