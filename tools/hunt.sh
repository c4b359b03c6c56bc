#!/bin/bash
# hunt.sh SEED [CHECK...]: applies a planted bug to /repo, runs checks, undoes it.
cd /verif || exit 2
id=$1; shift
checks=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $checks; do
	./run.sh check $c >/tmp/hunt.out 2>&1; rc=$?
	echo "$id $c rc=$rc $(grep -m1 '^part' /tmp/hunt.out | cut -c1-150) $(tail -1 /tmp/hunt.out)"
done
