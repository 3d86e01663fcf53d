#!/bin/bash
# trybug.sh ID [check ...]: confirm one planted bug in /repo and undo it
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; test -z "$(git status --porcelain)" || { echo dirty; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >/tmp/try.log 2>&1; bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "demo base rc=$? (want 0)"; fi
git apply $S/patch.diff || exit 8
bash /opt/vp/test.sh /tmp/try.json >/tmp/try.log 2>&1
python3 -c "
import json;d=json.load(open('/tmp/try.json'));b=json.load(open('/opt/vp/BASELINE.json'));s=set(d['passed'])
l=b.get('stable') or b.get('passed') or b.get('tests') or []
m=[x for x in l if (x if isinstance(x,str) else x.get('id')) not in s]
print('tests passed',len(s),'failed',len(d['failed']),'missing',m[:5])"
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "demo bug rc=$? (want !=0): $(tail -1 /tmp/demo1.log | cut -c1-150)"
for p in ${@:-$P}; do (cd /verif; timeout 900 python3 check.py $p > /tmp/chk.log 2>&1; echo "check $p rc=$? (want 1)"; grep -E "violated:|BROKEN" /tmp/chk.log | head -${LINES_:-2} | cut -c1-300); done
