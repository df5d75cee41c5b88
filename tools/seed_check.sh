#!/bin/bash
# seed_check.sh ID [PROPERTY]: run a check against the planted change.
id=$1; s=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
git -C /repo apply "$s/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
st=$(date +%s)
timeout 900 /verif/bin/check $p quick > /tmp/seedcheck.$id 2>&1; rc=$?
echo "$id $p exit=$rc $(($(date +%s)-st))s $(grep -m1 VIOLATION /tmp/seedcheck.$id)"
