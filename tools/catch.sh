#!/bin/bash
# catch.sh [ID...]: does the check of each planted bug's property report it? (scratch copies, 4 at a time)
cd "$(dirname "$0")/.."
one() {
  id=$1; d=/tmp/catch/$id; rm -rf /tmp/catch/$id; mkdir -p $d
  git -C /repo archive HEAD | tar x -C $d
  (cd $d && git apply $OLDPWD/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; return; }
  p=${P:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  for q in $p; do
  o=$(SA_REPO=$d SA_CACHE=/tmp/catch/cache-$id timeout 900 ./run $q 2>&1); r=$?
  echo "$id: $q rc=$r $(echo "$o" | grep -a '^violated' | head -1 | cut -c1-180)"
  done
  rm -rf /tmp/catch/$id /tmp/catch/cache-$id
}
export -f one
mkdir -p /tmp/catch
ls seeded | grep -v _ | { if [ $# -gt 0 ]; then printf '%s\n' "$@"; else cat; fi; } | xargs -P ${J:-5} -I{} bash -c 'one {}'
