#!/bin/bash
# Confirm a planted bug: plant.sh ID [--no-tests]   (touches the working tree of /repo and restores it)
d=/verif/seeded/$1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git apply --check "$d/patch.diff" || exit 2
bash "$d/demo.sh" >/tmp/plant.clean 2>&1; echo "clean demo rc=$?"
git apply "$d/patch.diff"
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build fails"; exit 1; }
bash "$d/demo.sh" >/tmp/plant.out 2>&1; rc=$?; echo "patched demo rc=$rc"; tail -2 /tmp/plant.out
if [ "$2" != --no-tests ]; then
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1; tail -1 /tmp/plant.log
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
names=b if isinstance(b,list) else next(v for k,v in b.items() if isinstance(v,list) and len(v)>400)
missing=sorted(set(names)-set(r['passed']))
print('stable tests broken:', missing[:5], len(missing))
P
fi
