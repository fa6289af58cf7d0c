#!/bin/bash
# seedcheck.sh ID [P..] : what the checks say with a planted bug applied to /repo (undone afterwards)
id=$1; shift; s=/verif/seeded/$id; cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
P=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 2
for p in $P; do ./check.sh $p quick > /tmp/sc.log 2>&1; r=$?; echo "$id $p exit=$r $(grep -c . run/$p/*/violations 2>/dev/null | tr '\n' ' ')"; grep -v KNOWN /tmp/sc.log | head -${N:-4} | cut -c1-300; done
git -C /repo checkout -q -- .
