#!/bin/bash
# try.sh ID... : runs the check of each planted bug's property on a scratch copy of the repository
# that has the bug (/tmp/wt), with a scratch copy of the machinery (/tmp/vf); TIER=quick by default.
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/vf
rsync -a --delete --exclude .build --exclude .git --exclude seeded "$V/" /tmp/vf/
sed -i 's#"/repo/#"/tmp/wt/#' $(grep -rl '"/repo/' /tmp/vf --include=Cargo.toml) 
grep -rl '/repo' /tmp/vf/lib /tmp/vf/checks /tmp/vf/*.py 2>/dev/null | xargs -r sed -i 's#/repo\b#/tmp/wt#g'
for id in "$@"; do
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  git -C /tmp/wt checkout -q -- . && git -C /tmp/wt apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(cd /tmp/vf && timeout 900 python3 check.py $prop --tier ${TIER:-quick} 2>&1); r=$?
  git -C /tmp/wt checkout -q -- .
  if [ $r = 1 ] && echo "$out" | grep -q "^VIOLATION property=$prop"; then echo "$id: $prop caught: $(echo "$out" | grep '^  ' | head -1 | cut -c1-160)"; else echo "$id: $prop MISSED (exit $r) $(echo "$out" | tail -1 | cut -c1-300)"; fi
done
