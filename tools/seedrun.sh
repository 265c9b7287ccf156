#!/bin/bash
# seedrun.sh ID [PROPERTY...]: apply a planted bug to a scratch copy of /repo and run the checks of a scratch copy of /verif
# against it (VERIF_REPO is used for nothing else; the registered checks run against /repo)
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
props=$*
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedrun.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/repo" "$W/verif"
git -C /repo archive HEAD | tar -x -C "$W/repo"
cp -a "$V"/{pyvc,contracts,lemmas,run_check.py,known_findings.json,properties.jsonl} "$W/verif/"
(cd "$W/repo" && git init -q . && git apply "$V/seeded/$id/patch.diff") || exit 3
for p in $props; do
  s=$(date +%s)
  (cd "$W/verif" && VERIF_REPO=$W/repo python3-vt run_check.py "$p" quick > /tmp/seedrun.$id.$p.log 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m2 VIOLATION /tmp/seedrun.$id.$p.log | cut -c1-110 | tr '\n' ' ')"
done
