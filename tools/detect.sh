#!/bin/bash
# Run the check of a planted bug against it: detect.sh ID [extra run_check args]
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
git apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif && s=$(date +%s)
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash run_check.sh $p --no-evidence "$@" >/tmp/detect.$id 2>&1; rc=$?
echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/detect.$id)"
