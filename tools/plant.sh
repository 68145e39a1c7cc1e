#!/bin/bash
# plant.sh <id> [property...]: tries one planted change against tests, demo and checks.
# NODEMO=1 / NOTEST=1 / NOCHECK=1 skip parts.
cd "$(dirname "$0")/.." || exit 2
d=$PWD/seeded/$1; id=$1; shift
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo0.$id 2>&1); echo "$id demo clean: $? $(tail -1 /tmp/demo0.$id | cut -c1-200)"; fi
git -C /repo apply $d/patch.diff || { echo "$id does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo1.$id 2>&1); echo "$id demo patched: $? $(tail -1 /tmp/demo1.$id | cut -c1-200)"; fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.$id 2>&1 || { echo "$id build failed"; tail -20 /tmp/b.$id; exit 1; }
bash /opt/vp/test.sh /tmp/t.$id.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.$id.json'))
x=set(b['stable'])-set(t['passed'])
print('$id tests missing:',len(x), sorted(x)[:3])
P
fi
[ -n "$NOCHECK" ] && exit
for q in ${@:-$p}; do
  ./check.sh $q quick >/tmp/c.$id.$q 2>&1; echo "$id check $q: $? $(grep -E 'VIOLATION|run seed|error' /tmp/c.$id.$q | tr '\n' ' ' | cut -c1-250)"
done
