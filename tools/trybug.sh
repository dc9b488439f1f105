#!/bin/bash
# trybug.sh ID [CHECK...]: apply a seeded change to /repo, run checks against it, undo it.
id=$1; shift
d=/verif/seeded/$id
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/check.py $c > /tmp/trybug.$id.$c.log 2>&1; rc=$?
	echo "$id $c rc=$rc $(grep -m1 VIOLATION /tmp/trybug.$id.$c.log)"
done
