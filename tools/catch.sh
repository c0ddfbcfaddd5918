#!/bin/bash
# catch.sh ID [CHECK]: applies planted bug ID to /repo, runs its check (or CHECK), undoes it
id=$1
c=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $c > /tmp/catch_$id.log 2>&1); r=$?
git -C /repo checkout -q -- .
echo "$id $c rc=$r $(grep -A1 -m1 VIOLATION /tmp/catch_$id.log | tail -1 | cut -c1-160) $(tail -1 /tmp/catch_$id.log | cut -c1-120)"
