#!/bin/bash
# quiet.sh [-p "C01 C02"] NAME...: apply behaviour-preserving edits (quiet/NAME.py FILE-edits) to a scratch copy and run the checks on it
cd "$(dirname "$0")/.."
props=""; [ "$1" = -p ] && { props=$2; shift 2; }
[ -z "$props" ] && props=$(ls sa/props/c[0-9]*.py | sed 's/.*\/c\([0-9]*\).py/C\1/')
[ $# = 0 ] && set -- $(ls quiet/*.py | grep -v q.py | sed 's/.*\///; s/\.py//')
for n in "$@"; do
  d=/tmp/quiet/$n; mkdir -p /tmp/quiet; rm -rf "/tmp/quiet/$n"; mkdir -p $d
  git -C /repo archive HEAD | tar x -C $d
  (cd $d && python3 $OLDPWD/quiet/$n.py) || { echo "$n: edit failed"; continue; }
  if [ -n "$BUILD" ]; then (cd $d && CARGO_TARGET_DIR=/tmp/quiet/target cargo check --offline -q -p jinja-lsp -p jinja-lsp-nodejs 2>&1 | grep -E "^error" | head -3); fi
  out=$(printf '%s\n' $props | SA_REPO=$d SA_CACHE=/tmp/quiet/cache-$n xargs -P 4 -I{} sh -c 'SA_CACHE=/tmp/quiet/cache-'$n'; timeout 800 ./run {} 2>&1 | grep -E "^violated|VIOLATION" | cut -c1-'${W:-260}' | sed "s/^/  {}: /"')
  echo "== $n: $([ -z "$out" ] && echo quiet || echo ALARM)"; [ -n "$out" ] && echo "$out"
  rm -rf "/tmp/quiet/$n" "/tmp/quiet/cache-$n"
done
