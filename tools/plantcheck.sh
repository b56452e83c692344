#!/bin/bash
# plantcheck.sh DIR...   for every seeded change: applies to a clean /repo, builds,
# passes the tests, its demonstration passes without and fails with it, and what
# the check of its property (and those in $ALSO) says about it.  NOCHECK=1: no checks.
cd /repo || exit 2
for d in "$@"; do
  id=$(basename "$d"); d=/verif/seeded/$id
  [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
  tmp=$(mktemp -d /tmp/demo.XXXXXX); cp "$d"/* "$tmp"; rm -f "$tmp"/*.diff "$tmp"/meta.json
  (timeout 300 bash "$tmp/demo.sh" >/tmp/demo.out 2>&1); base=$?
  git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; git checkout -q -- .; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1)
  (timeout 300 bash "$tmp/demo.sh" >/tmp/demo.bug 2>&1); bug=$?
  ok=BAD; [ $base = 0 ] && [ $b = 0 ] && [ $bug != 0 ] && [[ "$t" == *"37 passed, 0 failed"* ]] && ok=ok
  echo "$id: $ok demo $base/$bug build $b $t | $(tail -1 /tmp/demo.bug | cut -c1-110)"
  [ $ok = ok ] || { tail -3 /tmp/demo.out; }
  if [ -z "$NOCHECK" ]; then
    prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    for c in $prop $ALSO; do
      out=$(cd /verif && timeout 850 python3 check.py run $c 2>/dev/null); rc=$?
      echo "   $c rc=$rc $(echo "$out" | grep -v '^KNOWN' | cut -c1-${W:-200} | tail -${L:-1})"
    done
  fi
  git checkout -q -- .
  rm -rf "$tmp"
done
bash /opt/vp/build.sh >/dev/null 2>&1
