#!/bin/bash
# plant.sh ID: confirm a planted bug (demo passes without, fails with; tests pass with) and run its property's check
id=$1; s=/verif/seeded/$id; cd /repo
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -n "$(git status --short)" ] && { echo "/repo dirty"; exit 9; }
if [ "$2" != quick ]; then bash $s/demo.sh >/tmp/plant.$id.0 2>&1; echo "$id demo clean: $?"; fi
git apply $s/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != quick ]; then
bash /opt/vp/build.sh >/tmp/plant.$id.b 2>&1 || { echo "$id BUILD FAILS"; tail -5 /tmp/plant.$id.b; exit 9; }
bash $s/demo.sh >/tmp/plant.$id.1 2>&1; echo "$id demo planted: $?"; tail -2 /tmp/plant.$id.1
bash /opt/vp/test.sh /tmp/plant.$id.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.$id.json'))
m=set(b['stable'])-set(r['passed'])
print('$id tests broken:',len(m),sorted(m)[:3])
P
fi
python3 /verif/sa/check.py $prop > /tmp/plant.$id.c 2>&1; echo "$id check $prop: $?"; grep -E "^(VIOL|  broken)" /tmp/plant.$id.c | cut -c1-220 | head -4
