#!/bin/bash
# seedtest.sh ID : confirms a planted bug in a scratch copy (/tmp/sw/repo): demo passes without, fails with; tests pass with
id=$1; s=/verif/seeded/$id; cd /tmp/sw/repo || exit 2
git checkout -q -- . ; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD
bash $s/demo.sh > /tmp/sw/demo0.log 2>&1; a=$?
git apply $s/patch.diff || exit 2
bash $s/demo.sh > /tmp/sw/demo1.log 2>&1; b=$?
(bash /tmp/sw/build.sh && bash /tmp/sw/test.sh /tmp/sw/out.json) > /tmp/sw/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))
try: o=json.load(open('/tmp/sw/out.json')); m=[x for x in b['stable'] if x not in o['passed']]
except Exception as e: m=[str(e)]
print("$id demo clean=$a bug=$b broken tests:", m)
P
git checkout -q -- .; [ -f /tmp/sw/out.json ] && mv /tmp/sw/out.json /tmp/sw/out.prev
